From b71e5b939d204d93907fcbfc18e780303aeeedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 01/68] fix: recompute convolution indices when the image shape
 changes, not only its size

The fold indices of indexed convolutions were cached per number of elements of
the input, so that an image with the same number of elements but another aspect
ratio was convolved with the indices of the earlier one.
---
 src/aihwkit/nn/modules/conv.py        | 9 ++++-----
 src/aihwkit/nn/modules/conv_mapped.py | 6 +++---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..be25af4 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -91,7 +91,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
             self.use_indexed = False
 
         self.fold_indices = Tensor().detach()
-        self.input_size = 0
+        self.input_size = ()  # type: Tuple[int, ...]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
         # Unregister weight/bias as a parameter but keep it for syncs
@@ -128,9 +128,8 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
     def _recalculate_indexes(self, x_input: Tensor) -> None:
         """Calculate and set the indexes of the analog tile."""
 
-        self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
-            x_input, self.in_channels
-        )
+        self.fold_indices, image_sizes, _ = self._calculate_indexes(x_input, self.in_channels)
+        self.input_size = tuple(x_input.shape[1:])
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
 
     @no_grad()
@@ -164,7 +163,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
+            input_size = tuple(x_input.shape[1:])
             if self.input_size != input_size or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
             return self.analog_module(x_input, tensor_view=self.tensor_view)
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..a5f8286 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -109,7 +109,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             self.use_indexed = True
         self.use_indexed = self.use_indexed and analog_tile.supports_indexed
 
-        self.input_size = 0
+        self.input_size = ()  # type: Tuple[int, ...]
         self.fold_indices_lst = []  # type: List[Tensor]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
@@ -194,7 +194,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             dimensional
 
         """
-        self.input_size = x_input.numel() / x_input.size(0)
+        self.input_size = tuple(x_input.shape[1:])
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -234,7 +234,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
+            input_size = tuple(x_input.shape[1:])
             if self.input_size != input_size or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
 
-- 
2.43.0


From bf69a7e8cc27ae40d92e64633a6b94ef32166c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 02/68] fix: zero_grad drops the pending gradient traces of
 analog tiles

Gradients that were reset were still applied by the next optimizer step, since
the traces are kept on the analog context and not in the grad attribute.
---
 src/aihwkit/optim/analog_optimizer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..104e052 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -56,6 +56,22 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    def zero_grad(self, *args: Any, **kwargs: Any) -> None:
+        """Reset the gradients of all optimized parameters.
+
+        This includes the pending gradient traces of the analog tiles.
+
+        Args:
+            args: arguments of the underlying optimizer
+            kwargs: keyword arguments of the underlying optimizer
+        """
+        super().zero_grad(*args, **kwargs)  # type: ignore[misc]
+
+        for group in self.param_groups:
+            for param in group["params"]:
+                if isinstance(param, AnalogContext):
+                    param.reset()
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
-- 
2.43.0


From 181fc5eb8cf7aa93e49d06aeadda77c7ef6947c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 03/68] fix: store a copy of the activation for the analog
 update

The gradient trace referred to the tensor of the caller, so that re-using the
input buffer between the backward pass and the optimizer step changed the update.
---
 src/aihwkit/simulator/tiles/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..64a2d54 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -101,13 +101,14 @@ class AnalogFunction(Function):
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
         else:
-            # Store activation and errors for optimizer (for analog training)
-            analog_ctx.analog_input.append(input_)
+            # Store activation and errors for optimizer (for analog training).
+            # Needs to be a copy as the caller might re-use its tensor before the update.
+            analog_ctx.analog_input.append(input_.clone())
 
             if runtime.offload_gradient:
                 store_gradients = grad_output.cpu()
             else:
-                store_gradients = grad_output
+                store_gradients = grad_output.clone()
             analog_ctx.analog_grad_output.append(store_gradients)
 
         ctx.saved_analog_tensors = []
-- 
2.43.0


From 6a91e74819ec802636d07da3a03c4e9cf208e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 04/68] fix: accumulate analog gradients of batches with
 different shapes

Gradient traces were concatenated along the first dimension, which fails (or, for
vector inputs, has the wrong size) when the batch dimensions differ.
---
 src/aihwkit/optim/analog_optimizer.py | 29 +++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 104e052..31aeff6 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,9 +7,9 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Type
 
-from torch import cat
+from torch import cat, Tensor
 from torch.optim import Optimizer, SGD, Adam
 from torch.autograd import no_grad
 
@@ -56,6 +56,23 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    @staticmethod
+    def _cat_batches(tensors: List[Tensor], trans: bool) -> Tensor:
+        """Concatenate the stored batches, which might differ in their batch dimensions.
+
+        Args:
+            tensors: list of ``[..., size]`` tensors (``[size, ...]`` if ``trans`` is set)
+            trans: whether the feature dimension comes first
+
+        Returns:
+            Concatenated tensor
+        """
+        if len(tensors) == 1:
+            return tensors[0]
+        if trans:
+            return cat([tensor.reshape(tensor.size(0), -1) for tensor in tensors], axis=-1)
+        return cat([tensor.reshape(-1, tensor.size(-1)) for tensor in tensors], axis=0)
+
     def zero_grad(self, *args: Any, **kwargs: Any) -> None:
         """Reset the gradients of all optimized parameters.
 
@@ -138,11 +155,11 @@ class AnalogOptimizerMixin:
                                 ),
                             )
                     else:
-                        x_input = cat(
-                            analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
+                        x_input = self._cat_batches(
+                            analog_ctx.analog_input, analog_tile.in_trans
                         )
-                        d_input = cat(
-                            analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0
+                        d_input = self._cat_batches(
+                            analog_ctx.analog_grad_output, analog_tile.out_trans
                         )
                         analog_tile.update(
                             x_input.to(analog_tile.device) if runtime.offload_input else x_input,
-- 
2.43.0


From 6c455f7c8683e92667032d1ccd828f77f3c9b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 05/68] fix: convert update resolutions given as number of
 steps

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From e59d50082d2990d650c9aa49c95d82c22ef501e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 06/68] fix: keyword names of the transpose flags of
 tile.update

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index bf8a1c0..e40ffce 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -594,8 +594,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
                 reinterpret_cast<T_RPU *>(d_input.template data_ptr<T>()), bias, m_batch, x_trans,
                 d_trans);
           },
-          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("d_trans") = false,
-          py::arg("x_trans") = false, py::arg("non_blocking") = false,
+          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("x_trans") = false,
+          py::arg("d_trans") = false, py::arg("non_blocking") = false,
           R"pbdoc(
            Compute an n-rank update.
 
-- 
2.43.0


From e4962283210e721cffde86587ec4560bcdf55dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 07/68] fix: keep the sign of negative learning rates for
 deterministic pulse trains

---
 src/rpucuda/dense_bit_line_maker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..2a3b511 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -302,7 +302,8 @@ int *DenseBitLineMaker<T>::makeCoincidences(
   case PulseType::MeanCount:
     // x counts
     generateCountsMean(
-        x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
+        x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round,
+        (T)fabsf((float)lr));
     // d counts
     generateCountsMean(
         d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
@@ -315,7 +316,8 @@ int *DenseBitLineMaker<T>::makeCoincidences(
 
     // x counts
     generateDetImplicit(
-        x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr);
+        x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round,
+        (T)fabsf((float)lr));
 
     // d counts
     generateDetImplicit(
-- 
2.43.0


From 30520b4faca85a98f88e10893e9e986327164a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 08/68] fix: do not set a learning rate that is rejected

---
 src/rpucuda/rpu_pulsed.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed.cpp b/src/rpucuda/rpu_pulsed.cpp
index 7d575b6..291f300 100644
--- a/src/rpucuda/rpu_pulsed.cpp
+++ b/src/rpucuda/rpu_pulsed.cpp
@@ -171,8 +171,6 @@ template <typename T> void RPUPulsed<T>::setLearningRate(T lr) {
 
   if (lr != this->getLearningRate()) {
 
-    RPUSimple<T>::setLearningRate(lr);
-
     if (rpu_device_ != nullptr && rpu_device_->isPulsedDevice()) {
       // some output
       int BL = 0;
@@ -183,6 +181,9 @@ template <typename T> void RPUPulsed<T>::setLearningRate(T lr) {
           static_cast<PulsedRPUDeviceBase<T> *>(&*rpu_device_)->getWeightGranularity());
       DEBUG_OUT("\t BL = " << BL << ", A = " << A << ", B = " << B);
     }
+
+    // only after the above check: a rejected learning rate is not set
+    RPUSimple<T>::setLearningRate(lr);
   }
 }
 
-- 
2.43.0


From 66216da1b880a29e950e07ccc9aeea185e88631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 09/68] fix: PowStepReference pulses on weights beyond the
 device bound

---
 src/rpucuda/rpu_powstep_reference_device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpucuda/rpu_powstep_reference_device.cpp b/src/rpucuda/rpu_powstep_reference_device.cpp
index 2d5fec6..a4af614 100644
--- a/src/rpucuda/rpu_powstep_reference_device.cpp
+++ b/src/rpucuda/rpu_powstep_reference_device.cpp
@@ -132,6 +132,8 @@ inline void update_once_reference(
     return;
   }
   w += ref; // first add
+  // weights might have been set (or drifted) beyond the bounds of the device itself
+  w = MIN(MAX(w, min_bound), max_bound);
 
   if (sign > 0) {
     w -= scale_down * (T)powf((w - min_bound) / range, gamma_down) *
-- 
2.43.0


From b45a94f4c4c91fb6e94dac3b530a8f6b4ae9fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 10/68] fix: pass contiguous batches to the tile update also if
 there is only one

---
 src/aihwkit/optim/analog_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 31aeff6..e6fa9e2 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -68,7 +68,7 @@ class AnalogOptimizerMixin:
             Concatenated tensor
         """
         if len(tensors) == 1:
-            return tensors[0]
+            return tensors[0].contiguous()
         if trans:
             return cat([tensor.reshape(tensor.size(0), -1) for tensor in tensors], axis=-1)
         return cat([tensor.reshape(-1, tensor.size(-1)) for tensor in tensors], axis=0)
-- 
2.43.0


From e6fa0d4937971bbce75e27b169e524e43302ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 11/68] fix: writes to views of the logical weights must not
 reach the tile

Without scales the data view (and copies of the context) shared its storage
with the tile, so that e.g. ctx.t().add_(1.0) or ctx.data.view(-1)[0] = 1
changed the analog weights.
---
 src/aihwkit/optim/context.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 0fc0b88..2fb9028 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -274,12 +274,16 @@ class AnalogContext(Parameter):
         return raw.shape
 
     def _logical_data(self) -> Tensor:
-        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``."""
+        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``.
+
+        Always returns a copy, so that writing to views of it cannot reach
+        the weights of the tile.
+        """
         raw = self._raw_data()
         try:
             analog_tile = object.__getattribute__(self, "analog_tile")
         except AttributeError:
-            return raw
+            return raw.clone()
 
         logical = raw
         if getattr(analog_tile, "analog_bias", False) and raw.dim() >= 2:
@@ -287,11 +291,11 @@ class AnalogContext(Parameter):
 
         get_scales = getattr(analog_tile, "get_scales", None)
         if get_scales is None:
-            return logical
+            return logical.clone()
 
         scales = get_scales()
         if scales is None:
-            return logical
+            return logical.clone()
 
         scales = scales.to(device=logical.device, dtype=logical.dtype)
         return logical * scales.view(-1, 1)
@@ -434,11 +438,11 @@ class AnalogContext(Parameter):
     def __copy__(self) -> Parameter:
         """Turn off copying of the pointers. Context will be re-created
         when tile is created"""
-        return Parameter(self._raw_data())
+        return Parameter(self._raw_data().detach().clone())
 
     def __deepcopy__(self, memo: Any) -> Parameter:
         """Turn off deep copying. Context will be re-created when tile is created"""
-        return Parameter(self._raw_data())
+        return Parameter(self._raw_data().detach().clone())
 
     def cuda(self, device: Optional[Union[torch_device, str, int]] = None) -> "AnalogContext":
         """Move the context to a cuda device.
-- 
2.43.0


From 01d41c9a5e6f4d74ebc6c8a64fdc5248cfb59af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 12/68] fix: keep the analog context bound to the tile weights
 on data type conversions

---
 src/aihwkit/optim/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 2fb9028..3c15bf9 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -503,6 +503,9 @@ class AnalogContext(Parameter):
                 self.cuda(device)
             elif device.type == "cpu" and self.analog_tile.is_cuda:
                 self.cpu()
+
+        # data type conversions are ignored: keep on referring to the tile weights
+        self.analog_tile._sync_analog_ctx_weights()
         return self
 
     def __repr__(self) -> str:
-- 
2.43.0


From c65c5179731931ec300b928c985dceece84140fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 13/68] fix: update and clip the weights of torch and custom
 tiles in place

The analog context refers to the weight tensor of the tile, so that replacing
it made the context show outdated weights.
---
 src/aihwkit/simulator/tiles/custom.py     |  2 +-
 src/aihwkit/simulator/tiles/torch_tile.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..af92a91 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -132,7 +132,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         if self._update.gradient_noise:
             delta_w += self._update.gradient_noise * randn_like(delta_w)
 
-        self._analog_weight = self._analog_weight - self.learning_rate * delta_w  # type: ignore
+        self._analog_weight.sub_(self.learning_rate * delta_w)
 
     def set_config(self, rpu_config: "CustomRPUConfig") -> None:
         """Updated the configuration to allow on-the-fly changes.
diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..ef6a4b7 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, randn
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,11 +128,11 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
-            self.weight.data = scaled_weights / new_scale
+            self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
@@ -150,12 +150,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            self.weight.data.clamp_(-alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From c02936ec2d3ea5384396e087509406e2849eb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 14/68] fix: TorchTransferTile: the context refers to the
 weights of the weight tile

---
 src/aihwkit/simulator/tiles/transfer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..6ad73f7 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -326,6 +326,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
             as_ref: if True, return a reference to the internal weight tensor.
                 If False (default), return a detached CPU copy.
         """
+        if as_ref:
+            return self.weight_tile._get_tile_weights_ref()
         # weight_tile.tile is a C++ tile that doesn't accept kwargs
         return self.weight_tile.tile.get_weights()
 
-- 
2.43.0


From 09d48bf00a88746d8e7eeba69e7e8473687a0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 15/68] fix: TorchInferenceTile: copy and pickle tiles with
 gradient hooks

---
 .../simulator/tiles/inference_torch.py        | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..3c3f82d 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -170,10 +170,16 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         """
 
         super().set_scales(scales)
+        self._register_scale_hook()
 
+    def _register_scale_hook(self) -> None:
+        """Register the hook that corrects the weight gradients for the current scales."""
         # - Remove old hook
         if self._backward_hook_handle is not None:
             self._backward_hook_handle.remove()
+            self._backward_hook_handle = None
+
+        scales = self.get_scales().clone()
 
         def hook(grad: Tensor) -> Tensor:
             return grad / scales.to(grad.device).view(-1, 1) ** 2
@@ -181,6 +187,27 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         if self.tile.weight.requires_grad:
             self._backward_hook_handle = self.tile.register_weight_hook(hook)
 
+    def __getstate__(self) -> Dict:
+        """Get the state for pickling (hooks cannot be pickled or copied)."""
+        state = super().__getstate__()
+        if state.get("_backward_hook_handle") is not None:
+            state["_backward_hook_handle"] = True
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        """Set the state and re-register the gradient hook."""
+        if "_backward_hook_handle" not in state:
+            # analog state of a state dict
+            super().__setstate__(state)
+            return
+
+        if self.__dict__.get("_backward_hook_handle") is not None:
+            self._backward_hook_handle.remove()
+        has_hook = state["_backward_hook_handle"] is not None
+        super().__setstate__({**state, "_backward_hook_handle": None})
+        if has_hook:
+            self._register_scale_hook()
+
     def pre_forward(
         self, x_input: Tensor, dim: int, is_test: bool = False, ctx: Any = None
     ) -> Tensor:
-- 
2.43.0


From 9df6fbf6f942aee6b6bab69f0fc5e8d3aad39f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 16/68] fix: placeholder views can be copied and never expose
 their memory

copy.deepcopy(model.state_dict()) failed, and ctx.data.T / .real / .data
returned uninitialized values.
---
 src/aihwkit/optim/weight_view.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..eb45d9d 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -8,7 +8,7 @@
 
 from typing import Any, Callable, Optional
 
-from torch import Tensor
+from torch import Tensor, empty_like
 from torch._C import DisableTorchFunction
 from torch.utils._pytree import tree_map
 
@@ -195,7 +195,22 @@ class PlaceholderDataView(Tensor):
 
         args = tree_map(unwrap, args)
         kwargs = tree_map(unwrap, kwargs)
-        return func(*args, **kwargs)
+        result = func(*args, **kwargs)
+        if isinstance(result, Tensor):
+            # e.g. properties such as ``data``, ``T`` or ``real``
+            with DisableTorchFunction():  # pylint: disable=not-context-manager
+                return PlaceholderDataView(result)
+        return result
+
+    def __copy__(self) -> "PlaceholderDataView":
+        """Return the placeholder with the same metadata."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            return PlaceholderDataView(self.as_subclass(Tensor))
+
+    def __deepcopy__(self, memo: Any) -> "PlaceholderDataView":
+        """Copy the placeholder, e.g. when a state dict is copied."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            return PlaceholderDataView(empty_like(self.as_subclass(Tensor)))
 
     def __repr__(self) -> str:
         """Return metadata summary without exposing meaningless backing values."""
-- 
2.43.0


From cc587ebd18efe6ecd51d03ea868594e140cb6fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 17/68] fix: TorchTransferTile: rebind the context after
 loading a state dict

---
 src/aihwkit/simulator/tiles/transfer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 6ad73f7..a81125d 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -571,6 +571,12 @@ class TorchTransferTile(TileModule, TileWithPeriphery, SimulatorTileWrapper):
             self, out_size, in_size, rpu_config, bias, in_trans, out_trans, ignore_analog_state=True
         )
         TileWithPeriphery.__init__(self)
+        self.register_load_state_dict_post_hook(TorchTransferTile._rebind_context_hook)
+
+    @staticmethod
+    def _rebind_context_hook(analog_tile: "TorchTransferTile", _incompatible_keys: Any) -> None:
+        """Refer to the weights of the weight tile, which was re-created when loaded."""
+        analog_tile._sync_analog_ctx_weights()
 
     def _create_simulator_tile(
         self, x_size: int, d_size: int, rpu_config: RPUConfigGeneric
-- 
2.43.0


From 7f01af341c5b116e2a21d82f7774e7d795da6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 18/68] fix: data type conversions must not detach the shared
 weights of a tile

---
 src/aihwkit/simulator/tiles/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..159a30e 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -240,8 +240,11 @@ class TileModule(Module, TileModuleBase):
             self._apply_without_context(lambda t: t.to(*new_args, **kwargs))
 
         if dtype is not None:
+            if self.shared_weights is not None and self._shared_weight_tensor is not None:
+                # data type of the tile does not change: keep the memory shared with the tile
+                self.shared_weights.data = self._shared_weight_tensor
             self.analog_ctx.to(dtype=dtype)
-            scales = self.get_scales()
+            scales = self.get_scales() if hasattr(self, "get_scales") else None
             if scales is not None:
                 self.set_scales(scales)
 
-- 
2.43.0


From f07b4e7411ef731ff4e6879bef895a13c4b669e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 19/68] fix: analog_summary leaves the model as it was

---
 src/aihwkit/utils/analog_info.py | 40 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index d25c72d..e3bbf04 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -16,7 +16,7 @@ import operator
 from typing import Optional, Any, List
 
 # Imports from PyTorch.
-from torch import zeros
+from torch import no_grad, zeros
 from torch.nn import Module
 
 from aihwkit.nn.modules.base import AnalogLayerBase
@@ -199,14 +199,17 @@ class AnalogInfo:
         self.total_tile_number = self.calculate_num_tiles()
         self.total_nb_analog = self.calculate_num_analog()
 
-    def register_hooks_recursively(self, module: Module, hook: Any) -> None:
+    def register_hooks_recursively(self, module: Module, hook: Any) -> List[Any]:
         """Hooks the function into all layers with no children (or
         only analog tiles as childrens).
+
+        Returns:
+            List of the handles to remove the hooks.
         """
 
         if len(list(module.children())) == 0:
-            module.register_forward_hook(hook)
-        elif (
+            return [module.register_forward_hook(hook)]
+        if (
             isinstance(module, AnalogLayerBase)
             and not module.IS_CONTAINER
             and len(
@@ -214,16 +217,20 @@ class AnalogInfo:
             )
             == 0
         ):  # type: ignore
-            module.register_forward_hook(hook)  # type: ignore
-        else:
-            for layer in module.children():
-                self.register_hooks_recursively(layer, hook)
+            return [module.register_forward_hook(hook)]  # type: ignore
+        handles = []
+        for layer in module.children():
+            handles.extend(self.register_hooks_recursively(layer, hook))
+        return handles
 
     def create_layer_summary(self) -> List[LayerInfo]:
         """Create the layer summary list.
 
         This list contains LayerInfo elements that corresponds to each
         layer of the model.
+
+        Note:
+            The forward pass is done in evaluation mode to leave the model unchanged.
         """
         layer_summary = []
 
@@ -233,10 +240,19 @@ class AnalogInfo:
             output_size = list(_output.size())
             layer_summary.append(LayerInfo(_, self.rpu_config, input_size, output_size))
 
-        self.register_hooks_recursively(self.model, get_size_hook)
-        device = next(self.model.parameters()).device
-        dummy_var = zeros(self.input_size).to(device)
-        self.model(dummy_var)
+        modes = [(module, module.training) for module in self.model.modules()]
+        handles = self.register_hooks_recursively(self.model, get_size_hook)
+        try:
+            self.model.eval()
+            device = next(self.model.parameters()).device
+            dummy_var = zeros(self.input_size).to(device)
+            with no_grad():
+                self.model(dummy_var)
+        finally:
+            for handle in handles:
+                handle.remove()
+            for module, mode in modes:
+                module.training = mode
         return layer_summary
 
     def calculate_num_tiles(self) -> int:
-- 
2.43.0


From ce63f51c5203673266463917e93f6937bb23d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 20/68] fix: get_learning_rate of tiles that have no learning
 rate

---
 src/aihwkit/simulator/tiles/periphery.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..83786d2 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1406,10 +1406,13 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if learning_rate is not None:
             self.tile.set_learning_rate(learning_rate * self.mapping_lr_scale)
 
-    def get_learning_rate(self) -> float:
+    def get_learning_rate(self) -> Optional[float]:
         """Return the tile learning rate.
 
         Returns:
-            float: the tile learning rate.
+            float: the tile learning rate if the tile has one.
         """
-        return self.tile.get_learning_rate() / self.mapping_lr_scale
+        learning_rate = self.tile.get_learning_rate()
+        if learning_rate is None:
+            return None
+        return learning_rate / self.mapping_lr_scale
-- 
2.43.0


From f440248b30d681f965e4de9630883ee73402dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 21/68] fix: weight getters return copies of the digital bias

---
 src/aihwkit/simulator/tiles/array.py     | 2 +-
 src/aihwkit/simulator/tiles/periphery.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..f6c4812 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -149,7 +149,7 @@ class TileModuleArray(Module, TileModuleBase):
         weight = cat(weight_lst, 1)
 
         if self.bias is not None:
-            return weight, self.bias.data
+            return weight, self.bias.data.clone()
         return weight, None
 
     def forward(self, x_input: Tensor, tensor_view: Optional[Tuple] = None) -> Tensor:
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 83786d2..2db6830 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -230,7 +230,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(combined_weights)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             return weight, bias
@@ -423,7 +423,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(est_weight)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             # we de-apply all scales
-- 
2.43.0


From ed96be4ef3d6427a835c99f7c600900ef88d70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 22/68] fix: restore the hidden weights of compound devices and
 the mixed precision buffer

---
 src/aihwkit/simulator/tiles/base.py       |  5 +++++
 src/rpucuda/rpu_mixedprec_device_base.cpp | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..0a34aa2 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -760,6 +760,11 @@ class SimulatorTileWrapper:
             if not isinstance(weights, Tensor):
                 weights = from_numpy(array(weights))
             self.tile.set_weights(weights)
+            if hidden_parameters.numel() > 0:
+                # Programming weights re-initializes the hidden weights of
+                # compound devices. Note that the hidden parameters need to be
+                # set before as well, because the weight bounds are among them.
+                self.tile.set_hidden_parameters(hidden_parameters)
             self._copy_weights_to_shared_tensors(weights)
 
             # set_weights() fills the fresh CPU C++ tile from the serialized raw
diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..b58ca96 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,20 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
-  rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
+  size_t m = names.size() - 1;
+  std::vector<T *> v(data_ptrs.begin(), data_ptrs.begin() + m);
+  rpu_device_->setDeviceParameter(out_weights, v);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[m]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From 74e3c32f1410a2c1bf99e05e937a40b9074f77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 23/68] fix: state dicts of inference tiles contain the
 programmed state and gradient scaling

---
 src/aihwkit/simulator/tiles/inference.py      | 23 +++++++++++++++++--
 .../simulator/tiles/inference_torch.py        | 12 +++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..f4974a8 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -8,6 +8,7 @@
 
 # pylint: disable=too-many-ancestors
 
+from copy import deepcopy
 from typing import Optional, Union, Any, Tuple, List, Dict, TYPE_CHECKING
 
 from torch import device as torch_device
@@ -129,7 +130,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .to(self.device)
             )
             if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
+                self.drift_readout_tensor = self.drift_readout_tensor.transpose(
                     0, 1
                 ).clone()
         else:
@@ -263,7 +264,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             if isinstance(self, Module):
                 # somehow legacy is incompatible with torch buffers
                 self.__dict__.pop("alpha", None)
-            self.alpha = alpha
+            # keep the shape of the buffer: otherwise the state dict could not be loaded
+            self.alpha = alpha.reshape(1) if alpha.dim() == 0 else alpha
 
     def post_forward(
         self, x_output: Tensor, dim: int, is_test: bool = False, ctx: Any = None
@@ -342,6 +344,23 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             )
         self.tile.modify_weights(self._tmp["weight_modify_params"])  # type: ignore
 
+    def get_analog_state(self) -> Dict:
+        """Get the analog state for the state_dict.
+
+        Adds the programmed state, so that drifting can be continued
+        from a checkpoint.
+        """
+        state = super().get_analog_state()
+        for name in (
+            "reference_combined_weights",
+            "programmed_weights",
+            "drift_noise_parameters",
+            "drift_baseline",
+            "drift_readout_tensor",
+        ):
+            state[name] = deepcopy(getattr(self, name, None))
+        return state
+
     def __getstate__(self) -> Dict:
         # pylint: disable=no-member
         self.__dict__.pop("_tmp", None)
diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 3c3f82d..af3562f 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -179,14 +179,20 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
             self._backward_hook_handle.remove()
             self._backward_hook_handle = None
 
-        scales = self.get_scales().clone()
-
         def hook(grad: Tensor) -> Tensor:
+            # note that a state dict loads the scales later than the analog state
+            scales = self.get_scales()
             return grad / scales.to(grad.device).view(-1, 1) ** 2
 
         if self.tile.weight.requires_grad:
             self._backward_hook_handle = self.tile.register_weight_hook(hook)
 
+    def get_analog_state(self) -> Dict:
+        """Get the analog state for the state_dict."""
+        state = super().get_analog_state()
+        state["_backward_hook_handle"] = True if self._backward_hook_handle is not None else None
+        return state
+
     def __getstate__(self) -> Dict:
         """Get the state for pickling (hooks cannot be pickled or copied)."""
         state = super().__getstate__()
@@ -197,7 +203,7 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
     def __setstate__(self, state: Dict) -> None:
         """Set the state and re-register the gradient hook."""
         if "_backward_hook_handle" not in state:
-            # analog state of a state dict
+            # analog state of a state dict of another tile
             super().__setstate__(state)
             return
 
-- 
2.43.0


From aa5900b6d5bb067aaaf108e0b7dae43f0cb17039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 24/68] fix: TorchTransferTile: state dicts contain the
 transfer state; do not change the input of the update

---
 src/aihwkit/simulator/tiles/transfer.py | 27 +++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index a81125d..2fefd3f 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -17,7 +17,9 @@ from torch.nn import Module
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
-from aihwkit.simulator.tiles.base import SimulatorTileWrapper, SimulatorTile
+from aihwkit.simulator.tiles.base import (
+    AnalogTileStateNames, SimulatorTileWrapper, SimulatorTile
+)
 from aihwkit.simulator.tiles.analog import AnalogTileWithoutPeriphery
 from aihwkit.simulator.tiles.module import TileModule
 from aihwkit.simulator.tiles.periphery import TileWithPeriphery
@@ -57,6 +59,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
     """
 
+    STATE_NAMES = (
+        "update_counter", "chop_counter", "transfer_idx", "learning_rate", "m_x", "m_d"
+    )
+
     def __init__(
         self, x_size: int, d_size: int, rpu_config: "UnitCellRPUConfig", dtype: RPUDataType
     ):
@@ -214,7 +220,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input *= self.chopper
+            x_input = x_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
@@ -578,6 +584,23 @@ class TorchTransferTile(TileModule, TileWithPeriphery, SimulatorTileWrapper):
         """Refer to the weights of the weight tile, which was re-created when loaded."""
         analog_tile._sync_analog_ctx_weights()
 
+    def get_analog_state(self) -> Dict:
+        """Get the analog state for the state_dict."""
+        state = super().get_analog_state()
+        # the state of the simulator tile that is not in its buffers
+        state[AnalogTileStateNames.EXTRA] = {
+            name: getattr(self.tile, name) for name in TransferSimulatorTile.STATE_NAMES
+        }
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        """Set the state, including the state of the simulator tile given by a state_dict."""
+        state = state.copy()
+        extra = state.pop(AnalogTileStateNames.EXTRA, None) or {}
+        super().__setstate__(state)
+        for name, value in extra.items():
+            setattr(self.tile, name, value)
+
     def _create_simulator_tile(
         self, x_size: int, d_size: int, rpu_config: RPUConfigGeneric
     ) -> TransferSimulatorTile:
-- 
2.43.0


From 3e127e008859926348ec9730665a64b2ccb7f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 25/68] fix: mapped convolutions apply learned output scales
 along the channel dimension

---
 src/aihwkit/nn/modules/conv_mapped.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index a5f8286..0bda179 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -240,7 +240,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         if self.analog_tile_count() == 1:
             if use_indexed:
-                output = analog_tile(x_input)
+                output = analog_tile(x_input, tensor_view=self.tensor_view)
             else:
                 output = self._single_unfold(analog_tile, x_input)
 
@@ -257,7 +257,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
             for analog_tile in in_tiles:
                 if use_indexed:
-                    output = analog_tile(x)
+                    output = analog_tile(x, tensor_view=self.tensor_view)
                 else:
                     output = self._single_unfold(analog_tile, x)
                 out_result.append(output)
-- 
2.43.0


From 4e304cbf8a5d13302d5a6695e8b04894ec8e502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 26/68] fix: set_scales with a number, and weights set without
 scaling reset existing scales

---
 src/aihwkit/simulator/tiles/periphery.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 2db6830..37e07d4 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -493,6 +493,11 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             combined_weights = combined_weights / alpha
 
             self.set_scales(alpha)
+        else:
+            # weights are given without scales
+            if self.mapping_scales is not None:
+                self.set_mapping_scales(1.0)
+            self.set_learned_out_scales(1.0)
         return combined_weights
 
     @no_grad()
@@ -524,7 +529,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From 92ccc74f8f0f482993ef39c2a6f6db45a2ba33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 27/68] fix: conductance conversion of constant weights (single
 device) and of constant rows (fusion)

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 src/aihwkit/inference/converter/fusion.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
diff --git a/src/aihwkit/inference/converter/fusion.py b/src/aihwkit/inference/converter/fusion.py
index b85cc10..0b5c776 100644
--- a/src/aihwkit/inference/converter/fusion.py
+++ b/src/aihwkit/inference/converter/fusion.py
@@ -68,7 +68,7 @@ class FusionConductanceConverter(BaseConductanceConverter):
 
         weights = conductances[0] * sign(params["original_weights"])
         for col in range(weights.shape[0]):
-            reg = LinearRegression().fit(
+            reg = LinearRegression(fit_intercept=False).fit(
                 weights[col].flatten().numpy().reshape(-1, 1),
                 params["original_weights"][col].flatten().numpy().reshape(-1, 1),
             )
-- 
2.43.0


From 8baeeba59c18204245fe923ce1d343770e3101a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 28/68] fix: quantization ranges can be set and loaded while
 they are trainable

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 422619d..c5c9add 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -182,6 +182,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
     def x_min(self):
         return self.scale * (self.int_min - self.zero_point)
 
+    @torch.no_grad()
     def _load_from_state_dict(
         self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
     ):
@@ -313,6 +314,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
 
         return x_min, x_max
 
+    @torch.no_grad()
     def set_quant_range(self, x_min, x_max):
         """
         Instantiates the quantization parameters based on the provided
@@ -434,6 +436,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
     def x_min(self):
         return self.scale * (self.int_min - self.zero_point)
 
+    @torch.no_grad()
     def _load_from_state_dict(
         self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
     ):
@@ -560,6 +563,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
 
         return x_min, x_max
 
+    @torch.no_grad()
     def set_quant_range(self, x_min, x_max):
         x_min, x_max = self._tensorize_min_max(x_min, x_max)
         self._signed = x_min.min() < 0
-- 
2.43.0


From 3a2fb443e6e8b2ae1a06476d6fbd07e773354aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 29/68] fix: AnalogMatrix: LinearOperator methods for column
 matrices and transposition

---
 src/aihwkit/linalg/matrix.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/linalg/matrix.py b/src/aihwkit/linalg/matrix.py
index 02e7436..ea5235b 100644
--- a/src/aihwkit/linalg/matrix.py
+++ b/src/aihwkit/linalg/matrix.py
@@ -12,7 +12,7 @@ from scipy.sparse.linalg import LinearOperator
 from numpy import ndarray, dtype
 
 # Imports from PyTorch.
-from torch import Tensor, from_numpy
+from torch import Tensor, empty, from_numpy
 from torch.autograd import no_grad
 
 # Imports from aihwkit.
@@ -89,16 +89,17 @@ class AnalogMatrix(LinearOperator):
         return output
 
     def _matmat(self, X: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return self @ X
+        # columns are the vectors, as opposed to ``__matmul__``
+        return (self @ X.T).T
 
     def _matvec(self, x: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return self @ x
+        return self @ x.reshape(-1)
 
     def _rmatvec(self, x: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return x @ self
+        return x.reshape(-1) @ self
 
     def _rmatmat(self, X: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return X @ self
+        return (X.T @ self).T
 
     @property
     def shape(self) -> Tuple[int, int]:
@@ -108,7 +109,7 @@ class AnalogMatrix(LinearOperator):
     @property
     def dtype(self) -> dtype:
         """Return data type."""
-        return self._tile.rpu_config.get_data_type().as_torch()
+        return empty(0, dtype=self._tile.get_dtype()).numpy().dtype
 
     def ger(
         self, x_matrix: Union[Tensor, ndarray], d_matrix: Union[Tensor, ndarray], alpha: float = 1.0
-- 
2.43.0


From b6c18de4d3f5418bb8ebf92683805aa039105278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 30/68] fix: wrapping two model classes of the same name into
 analog models uses each model's own class

---
 src/aihwkit/nn/modules/container.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..eae3ed2 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -100,7 +100,7 @@ class AnalogWrapper(AnalogContainerBase):
          model: model to wrap with the analog wrapper.
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, module: Optional[Module] = None, **__: Any) -> "AnalogWrapper":
@@ -113,11 +113,12 @@ class AnalogWrapper(AnalogContainerBase):
 
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
-        # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
+        # (`module_cls`). Note that different classes might have the same name.
+        key = (cls, module_cls)
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, (cls, module_cls), {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(self, module: Module):
         self.__dict__.update(module.__dict__)
-- 
2.43.0


From 1fecb95005505b658b274622a5b75457593dfc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 31/68] fix: conversion to analog and to digital handles
 repeated modules and keeps the train/eval mode

---
 src/aihwkit/nn/conversion.py        | 87 ++++++++++++++++++++++++-----
 src/aihwkit/nn/modules/container.py | 10 +++-
 2 files changed, 82 insertions(+), 15 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f148a62..0f33d7a 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -77,6 +77,26 @@ def specific_rpu_config_id(
     return rpu_config
 
 
+def _keep_mode(module: Module, new_module: Module) -> Module:
+    """Transfer the training / evaluation mode to the converted module.
+
+    The modes of existing modules that are re-used in the converted
+    module (e.g. in case of containers) are not changed.
+
+    Args:
+        module: original module
+        new_module: the module converted from the original module
+
+    Returns:
+        The converted module
+    """
+    existing = set(module.modules())
+    for mod in new_module.modules():
+        if mod not in existing:
+            mod.training = module.training
+    return new_module
+
+
 def convert_to_analog(
     module: Module,
     rpu_config: RPUConfigGeneric,
@@ -88,6 +108,7 @@ def convert_to_analog(
     exclude_modules: Optional[List[str]] = None,
     inplace: bool = False,
     verbose: bool = False,
+    converted: Optional[Dict[Module, Module]] = None,
 ) -> Module:
     """Convert a given digital model to its analog counterpart.
 
@@ -138,6 +159,9 @@ def convert_to_analog(
 
         verbose: Increase verbosity. Will print converted layers.
 
+        converted: Already converted modules. Only used for the
+            recursive calls, so that modules that are used repeatedly
+            within a model are converted only once and remain shared.
 
     Returns:
         Module where all the digital layers are replaced with analog
@@ -163,22 +187,32 @@ def convert_to_analog(
     if specific_rpu_config_fun is None:
         specific_rpu_config_fun = specific_rpu_config_id
 
+    if converted is None:
+        converted = {}
+
     # Convert parent.
     if module.__class__ in conversion_map and module_name not in exclude_modules:
         if verbose:
             print(f"Converted '{module_name}' to '{conversion_map[module.__class__].__name__}'.")
-        module = conversion_map[module.__class__].from_digital(
+        module = _keep_mode(
             module,
-            specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)),
-            tile_module_class,
+            conversion_map[module.__class__].from_digital(
+                module,
+                specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)),
+                tile_module_class,
+            ),
         )
 
-    # Convert children.
+    # Convert children (`named_children` would omit repeated modules).
     convert_dic = {}
-    for name, mod in module.named_children():
+    for name, mod in module._modules.items():  # pylint: disable=protected-access
         full_name = module_name + "." + name if module_name else name
 
-        if full_name in exclude_modules:
+        if mod is None or full_name in exclude_modules:
+            continue
+
+        if mod in converted:
+            convert_dic[name] = converted[mod]
             continue
 
         n_grand_children = len(list(mod.named_children()))
@@ -194,16 +228,24 @@ def convert_to_analog(
                 exclude_modules,
                 True,
                 verbose,
+                converted,
             )
+            converted[mod] = convert_dic[name]
             continue
 
         if mod.__class__ not in conversion_map.keys():
             continue
         if verbose:
             print(f"Converted '{full_name}' to '{conversion_map[mod.__class__].__name__}'.")
-        convert_dic[name] = conversion_map[mod.__class__].from_digital(
-            mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
+        convert_dic[name] = _keep_mode(
+            mod,
+            conversion_map[mod.__class__].from_digital(
+                mod,
+                specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)),
+                tile_module_class,
+            ),
         )
+        converted[mod] = convert_dic[name]
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
@@ -220,6 +262,7 @@ def convert_to_digital(
     conversion_set: Optional[Set] = None,
     module_name: str = "",
     inplace: bool = False,
+    converted: Optional[Dict[Module, Module]] = None,
 ) -> Module:
     """Convert a given analog model to digital counter parts.
 
@@ -247,6 +290,10 @@ def convert_to_digital(
 
         inplace: Whether to for in place conversion (without deepcopy)
 
+        converted: Already converted modules. Only used for the
+            recursive calls, so that modules that are used repeatedly
+            within a model are converted only once and remain shared.
+
     Returns:
         Module where all the analog layers are replaced with digital
         layers
@@ -266,6 +313,9 @@ def convert_to_digital(
     if not isinstance(conversion_set, set):
         raise ArgumentError("Conversion set should be a set")
 
+    if converted is None:
+        converted = {}
+
     # Convert parent.
     if module.__class__ in conversion_set or isinstance(module, AnalogWrapper):
         if not hasattr(module.__class__, "to_digital"):
@@ -273,16 +323,26 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        module = module.__class__.to_digital(module)
+        module = _keep_mode(module, module.__class__.to_digital(module))
 
-    # Convert children.
+    # Convert children (`named_children` would omit repeated modules).
     convert_dic = {}
-    for name, mod in module.named_children():
+    for name, mod in module._modules.items():  # pylint: disable=protected-access
+        if mod is None:
+            continue
+
+        if mod in converted:
+            convert_dic[name] = converted[mod]
+            continue
+
         full_name = module_name + "." + name if module_name else name
         n_grand_children = len(list(mod.named_children()))
 
         if n_grand_children > 0:
-            convert_dic[name] = convert_to_digital(mod, conversion_set, full_name, inplace=True)
+            convert_dic[name] = convert_to_digital(
+                mod, conversion_set, full_name, inplace=True, converted=converted
+            )
+            converted[mod] = convert_dic[name]
             continue
 
         if mod.__class__ not in conversion_set:
@@ -293,7 +353,8 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        convert_dic[name] = mod.to_digital(mod)  # type: ignore
+        convert_dic[name] = _keep_mode(mod, mod.to_digital(mod))  # type: ignore
+        converted[mod] = convert_dic[name]
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index eae3ed2..bad905f 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -77,12 +77,18 @@ class AnalogSequential(AnalogContainerBase, Sequential):
     @classmethod
     def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any) -> "AnalogSequential":
         """Construct AnalogSequential in-place from Sequential."""
-        return cls(OrderedDict(mod for mod in module.named_children()))
+        # note that `named_children` would omit repeated modules
+        new_module = cls(OrderedDict(module._modules))  # pylint: disable=protected-access
+        new_module.training = module.training
+        return new_module
 
     @classmethod
     def to_digital(cls, module: "AnalogSequential", *args: Any, **kwargs: Any) -> Sequential:
         """Construct Sequential in-place from AnalogSequential."""
-        return Sequential(OrderedDict(mod for mod in module.named_children()))
+        # note that `named_children` would omit repeated modules
+        new_module = Sequential(OrderedDict(module._modules))  # pylint: disable=protected-access
+        new_module.training = module.training
+        return new_module
 
 
 class AnalogWrapper(AnalogContainerBase):
-- 
2.43.0


From 24e83cd9c9e84699e79bbe9cebfce5b5a586276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 32/68] fix: setting the weights discards the modified weights
 of the last weight modification

---
 src/rpucuda/rpu.cpp        | 8 ++++++++
 src/rpucuda/rpu.h          | 3 +++
 src/rpucuda/rpu_pulsed.cpp | 1 +
 3 files changed, 12 insertions(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..e121dae 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -1311,6 +1311,14 @@ template <typename T> void RPUSimple<T>::setWeights(const T *weightsptr) {
     int size = this->d_size_ * this->x_size_;
     memcpy(w, weightsptr, size * sizeof(T));
   }
+  resetFBWeights();
+}
+
+template <typename T> void RPUSimple<T>::resetFBWeights() {
+  if (fb_weights_ != nullptr) {
+    RPU::math::copy<T>(
+        this->x_size_ * this->d_size_, this->getWeightsPtr()[0], 1, fb_weights_[0], 1);
+  }
 }
 
 template <typename T> void RPUSimple<T>::setWeightsWithAlpha(const T *weightsptr, T assumed_wmax) {
diff --git a/src/rpucuda/rpu.h b/src/rpucuda/rpu.h
index d22afb6..213e7be 100644
--- a/src/rpucuda/rpu.h
+++ b/src/rpucuda/rpu.h
@@ -524,6 +524,9 @@ protected:
      case the user needs to explicitely use enable_during_test */
   T **getFBWeights(bool is_test) const;
 
+  /* Weights that are explicitly set discard the modified FB weights of the last modification. */
+  void resetFBWeights();
+
   /* This is called from the Update routines to check which weight
      is used for calculation. If dw is defined, then it will use the
      DW mode, meaning that it will write into delta_weights the DW
diff --git a/src/rpucuda/rpu_pulsed.cpp b/src/rpucuda/rpu_pulsed.cpp
index 291f300..7d4df07 100644
--- a/src/rpucuda/rpu_pulsed.cpp
+++ b/src/rpucuda/rpu_pulsed.cpp
@@ -290,6 +290,7 @@ template <typename T> void RPUPulsed<T>::setWeights(const T *weightsptr) {
   CHECK_RPU_DEVICE_INIT;
   RPUSimple<T>::setWeights(weightsptr);
   rpu_device_->onSetWeights(this->getWeightsPtr());
+  this->resetFBWeights();
 }
 
 template <typename T> void RPUPulsed<T>::applyWeightUpdate(T *dw_and_current_weight_out) {
-- 
2.43.0


From 49e2137a635cb72818943c81689f4604947ef821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 33/68] fix: torch tile weight clipping with no valid bound,
 discretize modifier for zero weights and per batch sample

---
 src/aihwkit/simulator/tiles/torch_tile.py | 26 +++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index ef6a4b7..cd9c7ae 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -6,7 +6,7 @@
 
 """Low level implementation of torch-based tile."""
 
-from typing import Callable, Any, Type, TYPE_CHECKING
+from typing import Callable, Any, Optional, Type, TYPE_CHECKING
 
 from torch import Tensor, zeros, randn
 from torch.nn import Parameter, Module
@@ -150,12 +150,14 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
+            if clip.fixed_value >= 0:
+                self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data.clamp_(-alpha, alpha)
+            if alpha > 0:
+                self.weight.data.clamp_(-alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
@@ -191,7 +193,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if not is_test:
             noisy_weights = TorchSimulatorTile.modify_weight(
-                self.weight, self._modifier, x_input.shape[0]
+                self.weight, self._modifier, x_input.shape[0] if x_input.dim() > 1 else None
             )
         else:
             noisy_weights = self.weight
@@ -207,14 +209,15 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
     @staticmethod
     def modify_weight(
-        inp_weight: Tensor, modifier: WeightModifierParameter, batch_size: int
+        inp_weight: Tensor, modifier: WeightModifierParameter, batch_size: Optional[int]
     ) -> Tensor:
         """Weight modifier that adds noise to the weights according to rpu config.
 
         Args:
             inp_weight: Input weights.
             modifier: Noise injection configuration.
-            batch_size (int): Batch size.
+            batch_size: Batch size or None if the input is a single sample
+                without batch dimension.
 
         Raises:
             TorchTileConfigError: Unsupported/unknown weight modifier type.
@@ -222,7 +225,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
         Returns:
             Weights with noise injected.
         """
-        per_batch_sample = modifier.per_batch_sample
+        per_batch_sample = modifier.per_batch_sample and batch_size is not None
         target_shape = (batch_size,) + inp_weight.shape if per_batch_sample else inp_weight.shape
         if modifier.type in [WeightModifierType.NONE, WeightModifierType.COPY]:
             return inp_weight
@@ -240,10 +243,11 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
-            out_weight = UniformQuantize.apply(
-                out_weight, modifier.res, assumed_wmax, modifier.sto_round
-            )
+            out_weight = inp_weight.expand(target_shape).clone()
+            if assumed_wmax > 0:
+                out_weight = UniformQuantize.apply(
+                    out_weight, modifier.res, assumed_wmax, modifier.sto_round
+                )
         elif modifier.type == WeightModifierType.ADD_NORMAL:
             with no_grad():
                 noise = (
-- 
2.43.0


From e331f51534c7890e730e6501204806581a26666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 34/68] fix: setting the hidden parameters of devices with
 write noise keeps the persistent and visible weights

---
 src/rpucuda/rpu_pulsed_device.cpp | 16 +++++++++++++++-
 src/rpucuda/rpu_pulsed_device.h   |  6 +++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..1483642 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -334,9 +334,23 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   // update the weights according to the bounds
-  this->onSetWeights(out_weights);
+  this->onSetDeviceParameter(out_weights);
 };
 
+template <typename T> void PulsedRPUDevice<T>::onSetDeviceParameter(T **weights) {
+
+  if (!getPar().usesPersistentWeight()) {
+    this->onSetWeights(weights);
+    return;
+  }
+  T *w = w_persistent_[0];
+  PRAGMA_SIMD
+  for (int i = 0; i < this->size_; ++i) {
+    w[i] = MIN(w[i], w_max_bound_[0][i]);
+    w[i] = MAX(w[i], w_min_bound_[0][i]);
+  }
+}
+
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
   return getPar().usesPersistentWeight() ? 1 : 0;
 }
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..ba2c6af 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -292,6 +292,10 @@ public:
 protected:
   void populate(const PulsedRPUDeviceMetaParameter<T> &par, RealWorldRNG<T> *rng);
 
+  /* Applies the new bounds. In case of persistent data these are part
+     of the parameters, the apparent weights are thus kept.*/
+  void onSetDeviceParameter(T **weights);
+
   T **w_max_bound_ = nullptr;
   T **w_min_bound_ = nullptr;
   T **w_scale_up_ = nullptr;
@@ -412,7 +416,7 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
+    this->onSetDeviceParameter(out_weights);                                                       \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 6f820ba4b57087775daea84e009c1289e83aa6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 35/68] fix: a clipped positive output is not forgotten by
 bound management without negative bound test

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..bbaee99 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -705,7 +705,7 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        bound_test_passed = bound_test_passed && !io.bm_test_negative_bound;
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From 170a1e94c581ffa4baa2df1993001f326ffc33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 36/68] fix: the product of an input without positive values is
 not zero for the Max noise management

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 1 +
 src/rpucuda/rpu_forward_backward_pass.cpp | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index b05932e..f7becad 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -81,6 +81,7 @@ class AnalogMVM:
         b_management = io_pars.bound_management != BoundManagementType.NONE
         if (
             io_pars.inp_noise <= 0.0
+            and io_pars.noise_management != NoiseManagementType.MAX
             and isinstance(nm_scale_values, Tensor)
             and (nm_scale_values == 0.0).all()
         ):
diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index bbaee99..b6d6695 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -921,7 +921,8 @@ void ForwardBackwardPassIOManaged<T>::forwardVector(
   bool nm = f_io_.noise_management != NoiseManagementType::None;
   bool bm = f_io_.bound_management != BoundManagementType::None;
 
-  if (nm && (nm_scale_value <= (T)0.0) && (f_io_.inp_noise <= (T)0.0)) {
+  if (nm && (nm_scale_value <= (T)0.0) && (f_io_.inp_noise <= (T)0.0) &&
+      f_io_.noise_management != NoiseManagementType::Max) {
     // short cut. output will be zero anyway
     int i_d = 0;
     PRAGMA_SIMD
@@ -1006,7 +1007,7 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
 
-  if (nm && (nm_scale_value <= (T)0.0)) {
+  if (nm && (nm_scale_value <= (T)0.0) && b_io_.noise_management != NoiseManagementType::Max) {
     // max is zero. output is just zero. short-cut
     int j_x = 0;
     PRAGMA_SIMD
@@ -1017,6 +1018,10 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
     return;
   }
 
+  if (!scaling) {
+    nm_scale_value = (T)1.0;
+  }
+
   computeAnalogMV(
       weights, d_input, this->d_size_, d_inc, x_output, this->x_size_, x_inc,
       (T)1.0 / nm_scale_value, scaling, this->fb_pars_.bwd, b_io_, true, false);
-- 
2.43.0


From 3d4a14e9ada20da1e20439813c8e1b4567942a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 37/68] fix: bound management of the torch tile acts on each
 row of a batch, like in the core

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 31 ++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index f7becad..5200cc8 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -9,7 +9,7 @@
 from typing import Union, Any, Optional
 from numbers import Number
 
-from torch import Tensor, zeros, randn_like, clamp, bmm
+from torch import Tensor, zeros, randn_like, clamp, bmm, where
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
@@ -117,6 +117,7 @@ class AnalogMVM:
             return output
 
         # with bound management
+        output = None
         bound_test_passed = False
         reduction_due_to_bound_management = 0.5
 
@@ -126,8 +127,7 @@ class AnalogMVM:
             inp_res *= 2.0 * io_pars.inp_bound
 
         bm_round = 0
-        while not bound_test_passed:
-            bound_test_passed = True
+        while True:
             reduction_due_to_bound_management *= 2.0
 
             bm_round += 1
@@ -143,7 +143,7 @@ class AnalogMVM:
                 scale /= reduction_due_to_bound_management
                 scaling = not (isinstance(scale, Number) and scale == 1.0)
 
-            bound_test_passed, output = cls._compute_analog_mv(
+            row_test_passed, row_output = cls._compute_analog_mv(
                 weight=weight,
                 input_=input_,
                 trans=trans,
@@ -154,18 +154,25 @@ class AnalogMVM:
                 **fwd_pars,
             )
 
-            bound_test_passed = bound_test_passed or (
+            # - Final scaling
+            if scaling or out_scale != 1.0:
+                row_output = row_output * (out_scale / scale)
+
+            # - Only rows that did not pass before are taken from this pass
+            if output is None:
+                output = row_output
+            else:
+                output = where(bound_test_passed, output, row_output)
+            bound_test_passed = bound_test_passed | row_test_passed
+
+            if bound_test_passed.all() or (
                 (reduction_due_to_bound_management > io_pars.max_bm_factor)
                 or (
                     (inp_res > 0.0)
                     and (reduction_due_to_bound_management > io_pars.max_bm_res / inp_res)
                 )
-            )
-
-        # - Final scaling
-        if scaling or out_scale != 1.0:
-            output *= out_scale / scale
-        return output
+            ):
+                return output
 
     @classmethod
     def _compute_analog_mv(
@@ -268,7 +275,7 @@ class AnalogMVM:
             out_values = UniformQuantize.apply(
                 out_values, res, io_pars.out_bound, io_pars.out_sto_round
             )
-        not_clipping = ((out_values <= bound) & (out_values >= -bound)).all()
+        not_clipping = ((out_values <= bound) & (out_values >= -bound)).all(dim=-1, keepdim=True)
         out_values = clamp(out_values, min=-bound, max=bound)
         if io_pars.bound_management != BoundManagementType.NONE:
             bound_test_passed = not_clipping
-- 
2.43.0


From c30f262ad4e6026a9bb1905f64ad258391b59d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 38/68] fix: per-output noise values apply to the last (output)
 dimension for inputs of any rank

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index 5200cc8..0b18787 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -266,9 +266,7 @@ class AnalogMVM:
             if out_noise_values is None:
                 out_values += io_pars.out_noise * randn_like(out_values)
             else:
-                out_values += randn_like(out_values) * out_noise_values.view(
-                    1, -1, *((1,) * (out_values.ndim - 2))
-                )
+                out_values += randn_like(out_values) * out_noise_values
 
         # - Discretize
         if res > 0:
-- 
2.43.0


From 8efe42a8e962a2b216d42403053e45a0f52cd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 39/68] fix: the output noise spread of the torch tile is given
 by out_noise_std

---
 src/aihwkit/simulator/tiles/torch_tile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index cd9c7ae..2d4abf2 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -62,7 +62,10 @@ class TorchSimulatorTile(SimulatorTile, Module):
         self._modifier = rpu_config.modifier
         dtype = rpu_config.runtime.data_type.as_torch()
         if self._f_io.out_noise_std > 0:
-            out_noise_values = (self._f_io.out_noise * (1.0 + randn((d_size,), dtype=dtype))).abs()
+            out_noise_values = (
+                self._f_io.out_noise
+                * (1.0 + self._f_io.out_noise_std * randn((d_size,), dtype=dtype))
+            ).abs()
             self.register_buffer("out_noise_values", out_noise_values)
         else:
             self.out_noise_values = None
-- 
2.43.0


From 9efeeef6e0e6457514200a7a2064ca1ddacbc482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 40/68] fix: set_backward_parameters accepts its parameters as
 keywords, like set_forward_parameters

---
 src/aihwkit/simulator/tiles/rpucuda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..798c21f 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -356,7 +356,7 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         return self._get_extra_parameters("fb_pass.bwd.")[0]  # type: ignore
 
     def set_backward_parameters(
-        self, dic: Optional[Dict[str, Tensor]], **kwargs: Dict[str, Tensor]
+        self, dic: Optional[Dict[str, Tensor]] = None, **kwargs: Dict[str, Tensor]
     ) -> None:
         """Set the additional parameters generated for the backward pass.
 
-- 
2.43.0


From 6e038f54ca10b6bbe06caad0eee40faa56441992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 41/68] fix: voltage offsets of the outputs are never negative
 (the sample was drawn twice)

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index b6d6695..504eb1a 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -259,7 +259,8 @@ void ForwardBackwardPassIOManaged<T>::populateFBParameter(
     if ((mv_pars.v_offset.size() != out_size) && io.hasVoltageOffsets()) {
       mv_pars.v_offset.resize(out_size);
       for (size_t i = 0; i < out_size; i++) {
-        mv_pars.v_offset[i] = MAX(io.v_offset_std * rng_->sampleGauss(), (T)0.0);
+        T v_offset = io.v_offset_std * rng_->sampleGauss();
+        mv_pars.v_offset[i] = MAX(v_offset, (T)0.0);
       }
     }
 
-- 
2.43.0


From dfc7c321efc525d1e2915430f63c96f3d3935da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 42/68] fix: clipping does not push a device beyond its own
 bounds

---
 src/rpucuda/rpu_pulsed_device.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 1483642..838e2c2 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -473,8 +473,10 @@ template <typename T> void PulsedRPUDevice<T>::clipWeights(T **weights, T clip)
   } else {
     PRAGMA_SIMD
     for (int i = 0; i < this->size_; ++i) {
-      w[i] = MIN(w[i], MIN(max_bound[i], clip));
-      w[i] = MAX(w[i], MAX(min_bound[i], -clip));
+      // the bounds of the device always win
+      w[i] = MIN(MAX(w[i], -clip), clip);
+      w[i] = MIN(w[i], max_bound[i]);
+      w[i] = MAX(w[i], min_bound[i]);
     }
   }
   applyUpdateWriteNoise(weights);
-- 
2.43.0


From 1a24028bb03271d21bc8663079f4f1594c45a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 43/68] fix: setting the weights of a fully hidden transfer
 device also sets the fast devices' own state

---
 src/rpucuda/rpu_transfer_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..1672ba5 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -576,6 +576,9 @@ template <typename T> bool TransferRPUDevice<T>::onSetWeights(T **weights) {
   }
   if (fully_hidden_) {
     // no need to copy, as we directly use the weights
+    for (int k = 0; k < last_idx; k++) {
+      this->rpu_device_vec_[k]->onSetWeights(this->weights_vec_[k]);
+    }
     this->rpu_device_vec_[last_idx]->onSetWeights(weights);
 
   } else {
-- 
2.43.0


From af604c60423369f9c2bd4dd9883abd3c14d5a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 44/68] fix: de-chop the fast weights of the right cells for
 the visible weight

The weights are stored row by row on the CPU, and the choppers of inputs
and outputs change roles if rows are transferred.
---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..77e6c95 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -542,15 +542,19 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   // the read path (readAndUpdate): +1 when the two choppers agree, -1 when
   // they differ (i.e. c_d[i] * c_x[j] expressed as an XOR of the flags).
 
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
   T *A = *this->weights_vec_[0];
-  int size = this->x_size_ * this->d_size_;
-
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
-  for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
-    weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
+
+  // Layout: W[d_idx * x_size + x_idx] (row-major, x as inner dimension)
+  int idx = 0;
+  for (int i = 0; i < this->d_size_; i++) {
+    for (int j = 0; j < this->x_size_; j++) {
+      T chop = (x_chopper[j] != d_chopper[i]) ? (T)-1.0 : (T)1.0;
+      weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
+      idx++;
+    }
   }
 }
 
-- 
2.43.0


From 46ca86fd4c9683acabe78fdf24659fbbc8a8f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 45/68] fix: copy the inverted parameters from the given device

The inverted copy of a device mirrored its own parameters (bounds, step sizes
and references) instead of those of the device it should be a copy of.
---
 src/rpucuda/rpu_powstep_reference_device.h    | 2 +-
 src/rpucuda/rpu_pulsed_device.cpp             | 8 ++++----
 src/rpucuda/rpu_softbounds_reference_device.h | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.h b/src/rpucuda/rpu_powstep_reference_device.h
index ba171b9..a07885a 100644
--- a/src/rpucuda/rpu_powstep_reference_device.h
+++ b/src/rpucuda/rpu_powstep_reference_device.h
@@ -127,7 +127,7 @@ template <typename T> class PowStepReferenceRPUDevice : public PulsedRPUDevice<T
         for (int i = 0; i < this->d_size_; ++i) {
           w_gamma_down_[i][j] = gamma_up[i][j];
           w_gamma_up_[i][j] = gamma_down[i][j];
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->getReference()[i][j];
         }
       }
 
diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 838e2c2..3f3102e 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -548,12 +548,12 @@ void PulsedRPUDevice<T>::copyInvertDeviceParameter(const PulsedRPUDeviceBase<T>
     for (int i = 0; i < this->d_size_; ++i) {
 
       // scaleup/down both have same sign
-      std::swap(w_scale_up_[i][j], w_scale_down_[i][j]);
+      w_scale_up_[i][j] = rpu->w_scale_down_[i][j];
+      w_scale_down_[i][j] = rpu->w_scale_up_[i][j];
 
       // min max have sign. mirror
-      T b = w_max_bound_[i][j];
-      w_max_bound_[i][j] = -w_min_bound_[i][j];
-      w_min_bound_[i][j] = -b;
+      w_max_bound_[i][j] = -rpu->w_min_bound_[i][j];
+      w_min_bound_[i][j] = -rpu->w_max_bound_[i][j];
     }
   }
 }
diff --git a/src/rpucuda/rpu_softbounds_reference_device.h b/src/rpucuda/rpu_softbounds_reference_device.h
index f2a5b56..78bd9cf 100644
--- a/src/rpucuda/rpu_softbounds_reference_device.h
+++ b/src/rpucuda/rpu_softbounds_reference_device.h
@@ -87,7 +87,7 @@ template <typename T> class SoftBoundsReferenceRPUDevice : public PulsedRPUDevic
       /*invert copy DP */
       for (int j = 0; j < this->x_size_; ++j) {
         for (int i = 0; i < this->d_size_; ++i) {
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->getReference()[i][j];
         }
       }
 
-- 
2.43.0


From 9bfe83efde096daacd6795fa15f6b896046e7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 46/68] fix: scale the transfer cycles of the next devices with
 the number of slices

The cycle of every next device is the one of the previous device times the
number of transfers that a full pass over its columns (or rows) takes. The
size of the other dimension was used instead.
---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 1672ba5..2b8531d 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -184,7 +184,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     T n = transfer_every;
     for (size_t i = 0; i < n_devices; i++) {
       transfer_every_vec.push_back(n);
-      n *= (T)_out_size / (T)n_reads_per_transfer;
+      n *= (T)_in_size / (T)n_reads_per_transfer;
     }
     if (no_self_transfer) {
       transfer_every_vec[n_devices - 1] = 0;
-- 
2.43.0


From ae52c6211106c108fa95cb8eaed76b2255335366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 47/68] fix: reset a column after its own transfer only

With several reads per transfer all columns were reset at the first read, so
that the content of the later columns was lost before it was read.
---
 src/rpucuda/rpu_transfer_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 2b8531d..3687a76 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,8 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(
+          W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From 09ca497c5d6f1536bf0715ae7ebf5e4efe75f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 48/68] fix: chop the errors if rows are transferred

The python transfer tile had one chopper per input and applied it to the inputs
in any case, although the choppers belong to the rows that are read.
---
 src/aihwkit/simulator/tiles/transfer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 2fefd3f..e511762 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -126,7 +126,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
             self.register_buffer("reference_weight", reference_weight)
 
-        chopper = ones([self.x_size], dtype=dtype.as_torch())
+        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
@@ -220,7 +220,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input = x_input * self.chopper
+            if cfg.transfer_columns:
+                x_input = x_input * self.chopper
+            else:
+                d_input = d_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From fa4154c39617a34b86700c37f2b2a9fd77daa112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 49/68] fix: keep in the buffer what the python transfer tile
 did not write

At most desired_bl pulses are written in a transfer, only these are to be
subtracted. A forgotten buffer is reset to the momentum times its value, not
to the momentum itself.
---
 src/aihwkit/simulator/tiles/transfer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index e511762..0ef18f2 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -280,9 +280,11 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 self.hidden_weight[k] += lr_h * self.chopper[k] * omega
 
             # compute update weight
-            write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
+            max_steps = cfg.transfer_update.desired_bl
+            # negative because of update LR
+            write_values = -trunc(self.hidden_weight[k]).clamp(-max_steps, max_steps)
             if cfg.forget_buffer:
-                self.hidden_weight[k][write_values != 0] = cfg.momentum
+                self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
                 self.hidden_weight[k] += write_values * (1 - cfg.momentum)
 
-- 
2.43.0


From 2de46fc0d403cf3168d7a6467cf68cbd0c945a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 50/68] fix: apply the transfer learning rate in the python
 transfer tile

The settings transfer_lr, scale_transfer_lr and scale_fast_lr were ignored.
---
 src/aihwkit/simulator/tiles/transfer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 0ef18f2..6aa1580 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -214,7 +214,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 lr_a /= self.m_x * self.m_d
 
         else:
-            lr_a = cfg.fast_lr
+            lr_a = cfg.fast_lr if cfg.fast_lr > 0 else self.learning_rate
+
+        if cfg.scale_fast_lr and cfg.fast_lr > 0:
+            lr_a *= self.learning_rate
 
         # gradient accumulation
         self.grad_tile.set_learning_rate(lr_a)
@@ -245,11 +248,15 @@ class TransferSimulatorTile(SimulatorTile, Module):
             else:
                 buffer_granularity *= self.from_weight_granularity
 
+            transfer_lr = cfg.transfer_lr
+            if cfg.scale_transfer_lr:
+                transfer_lr *= self.learning_rate
+
             if cfg.correct_gradient_magnitudes:
                 buffer_granularity *= self.to_weight_granularity / self.from_weight_granularity
-                lr_h = self.learning_rate / lr_a / buffer_granularity
+                lr_h = transfer_lr / lr_a / buffer_granularity
             else:
-                lr_h = self.learning_rate / buffer_granularity
+                lr_h = transfer_lr / buffer_granularity
 
             chop_period = int(round(1.0 / cfg.in_chop_prob)) if cfg.in_chop_prob > 0 else 1
 
-- 
2.43.0


From e4e1a9206f122a08aad5fe94892527e30645a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 51/68] fix: size the output of a tile with only one of
 in_trans and out_trans

The output buffer of forward and backward kept the batch size at the place
of the input channels, so that the tile wrote outside of it.
---
 .../simulator/rpu_base_src/rpu_base_tiles.cpp    | 16 ++++++----------
 .../rpu_base_src/rpu_base_tiles_cuda.cpp         | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index e40ffce..37c20d1 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -428,11 +428,9 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            // the channel dimension might be at different places for input and output
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -498,11 +496,9 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            // the channel dimension might be at different places for input and output
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 1b1a93f..e0882e4 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -181,11 +181,9 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            // the channel dimension might be at different places for input and output
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -259,11 +257,9 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            // the channel dimension might be at different places for input and output
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
-- 
2.43.0


From 53da59dc00c8c3d0d0239ca4c0b121afafa42690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 52/68] fix: drift compensation per output for any output
 shape, and afresh after programming

Values for each output are applied along the output channels (indexed
convolutions, transposed outputs), read out batch first, and can be loaded
from a state dict. Programming the weights resets the compensation.
---
 src/aihwkit/simulator/tiles/inference.py | 11 +++++++++--
 src/aihwkit/simulator/tiles/module.py    |  6 ++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index f4974a8..2b85b33 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -144,8 +144,6 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 input_ = input_.T
 
             output = (input_ @ self.reference_combined_weights.T)  # type: ignore
-            if self.out_trans:
-                output = output.T
 
         else:
             output = self.tile.forward(
@@ -156,6 +154,9 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 True,
                 self.non_blocking,
             )
+            if self.out_trans:
+                # always batch first for the read-out
+                output = output.T
 
         return output
 
@@ -216,6 +217,9 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
         ):
             self.drift_baseline = self.rpu_config.drift_compensation.init_baseline(self)
 
+        # newly programmed, thus nothing to compensate anymore
+        self.alpha = ones((1,), dtype=self.get_dtype(), device=self.device)
+
     @no_grad()
     def drift_weights(self, t_inference: float = 0.0) -> None:
         """Programs and drifts the current reference weights.
@@ -280,6 +284,9 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             # only do drift compensation in eval mode
+            if self.alpha.numel() > 1:
+                # one value for each output
+                return x_output * self.alpha.view(self.get_tensor_view(x_output.dim(), dim))
             return x_output * self.alpha
         return x_output
 
diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 159a30e..5bd684c 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -420,6 +420,12 @@ class TileModule(Module, TileModuleBase):
         # look like a direct user write to the logical read-only context.
         state_dict.pop(prefix + AnalogTileStateNames.CONTEXT, None)
 
+        # The drift compensation has either one value or one for each output
+        alpha = state_dict.get(prefix + "alpha")
+        if isinstance(alpha, Tensor) and hasattr(analog_tile, "alpha"):
+            if analog_tile.alpha.shape != alpha.shape:
+                analog_tile.alpha = analog_tile.alpha.new_ones(alpha.shape)
+
         analog_state = state_dict.pop(analog_state_name).copy()
         if not analog_tile.load_rpu_config:
             success, msg = analog_tile.compatible_with(analog_state["rpu_config"])
-- 
2.43.0


From 81ea2b0a88c85c8ffbe8414d2c5095840283f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 53/68] fix: reference conductance of the programming
 coefficients

It was an error to give one, and the standard coefficients of the ReRam model
used the conductance range of the converter instead of their own reference.
---
 src/aihwkit/inference/noise/hermes.py | 3 ++-
 src/aihwkit/inference/noise/pcm.py    | 3 ++-
 src/aihwkit/inference/noise/reram.py  | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..8ed8c51 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -133,7 +133,8 @@ class HermesNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 20.7 or 10.35 uS. Need to
diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..e121326 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -81,7 +81,8 @@ class PCMLikeNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 25.0 uS. Need to
diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..9f38765 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -80,7 +80,8 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if coeff_g_max_reference is None:
-            self.coeff_g_max_reference = self.g_max
+            coeff_g_max_reference = self.g_max
+        self.coeff_g_max_reference = coeff_g_max_reference
 
         if coeff_dic is None:
             # standard g_max are defined in respect to 40.0 uS. Need to
@@ -91,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From 08fb67a2ab13cba42be5a28d72f68a60553794ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 54/68] fix: apply the programming noise also at inference time
 zero

---
 src/aihwkit/inference/noise/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..0e0b3ef 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -63,9 +63,8 @@ class BaseNoiseModel:
             g_prog = self.apply_programming_noise_to_conductance(g_target)
             if t_inference > 0:
                 nu_drift = self.generate_drift_coefficients(g_target)
-                noisy_conductances.append(
-                    self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
-                )
+                g_prog = self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
+            noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From 718a56b63a8a4772dad22f0b7c384964dbd99ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 55/68] fix: custom drift model does not change the target
 conductances

---
 src/aihwkit/inference/noise/pcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index e121326..902bf0f 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -281,8 +281,7 @@ class CustomDriftPCMLikeNoiseModel(PCMLikeNoiseModel):
         g_min = torch_min(g_lst)
         g_max = torch_max(g_lst)
 
-        g_target[g_target > g_max] = g_max  # clip G values to g_max
-        g_target[g_target < g_min] = g_min  # clip G values to g_min
+        g_target = g_target.clamp(min=g_min, max=g_max)  # clip G values (but not in place)
 
         assert (g_target >= g_min).all(), "All G values must be >= g_min"
         assert (g_target <= g_max).all(), "All G values must be <= g_max"
-- 
2.43.0


From 807a686a48bd426acfd34bdd29b5df9e33efb088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 56/68] fix: rectify negative drift coefficients as documented

---
 src/aihwkit/inference/noise/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/custom.py b/src/aihwkit/inference/noise/custom.py
index 9127ba6..a24e3c4 100644
--- a/src/aihwkit/inference/noise/custom.py
+++ b/src/aihwkit/inference/noise/custom.py
@@ -162,7 +162,7 @@ class StateIndependentNoiseModel(BaseNoiseModel):  # pylint: disable=too-many-in
 
         mu_drift = self.drift_nu_mean
         sig_drift = self.drift_nu_std
-        nu_drift = torch_abs(mu_drift + sig_drift * randn_like(g_target)).clamp(min=0.0)
+        nu_drift = (mu_drift + sig_drift * randn_like(g_target)).clamp(min=0.0)
         return nu_drift * self.drift_scale
 
     @no_grad()
-- 
2.43.0


From b59d41a0982e8119b710698133cc4166dc3a07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 57/68] fix: CMO model never gives negative or undefined
 conductances

---
 src/aihwkit/inference/noise/reram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index 9f38765..c30b02e 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -259,6 +259,7 @@ class ReRamCMONoiseModel(BaseNoiseModel):
             sig_prog += mat * value
         sig_prog *= self.g_max / self.coeff_g_max_reference
         g_prog = g_target + sig_prog * randn_like(g_target) * scale
+        g_prog.clamp_(min=0.0)  # no negative conductances allowed
         return g_prog
 
     @no_grad()
@@ -310,7 +311,7 @@ class ReRamCMONoiseModel(BaseNoiseModel):
         g_drift = g_mean + (randn_like(g_prog) * sigma_relaxation * self.drift_scale)
         sigma_read = (
             self.read_dict["K"]
-            * log10(g_drift)
+            * log10(g_drift.clamp(min=1.0))  # no read noise below 1 uS (might be negative)
             * sqrt(log((t_inference + self.read_dict["t_read"]) / (2 * self.read_dict["t_read"])))
         )
         g_final = g_drift + sigma_read * randn_like(g_prog) * self.read_noise_scale
-- 
2.43.0


From c8c7a4a4e434477f0ce99da6e47a91ae6d126a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 58/68] fix: mixed precision with only one side binned lost the
 binned errors

The binned errors were all stored at the index of the inputs loop (beyond the
end of the vector when x_size > d_size).
---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From c41bf81f9391b9708726ee8641b15cb36e0a025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 59/68] fix: mixed precision with a single bin produced NaNs in
 the digital buffer

---
 src/rpucuda/rpu_mixedprec_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 99ddf16..d7b0d0d 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -208,7 +208,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
   if (par.n_x_bins > 0) {
     int max_index = RPU::math::iamax<T>(this->x_size_, x_input, x_inc);
     T x_amax = (T)fabsf(x_input[max_index * x_inc]);
-    x_width = x_amax / ((T)half_x_bins);
+    x_width = half_x_bins > (T)0.0 ? x_amax / half_x_bins : (T)0.0;
     x_width = x_width == (T)0.0 ? (T)1.0 : x_width;
   }
 
@@ -218,7 +218,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
 
     int max_index = RPU::math::iamax<T>(this->d_size_, d_input, d_inc);
     T d_amax = (T)fabsf(d_input[max_index * d_inc]);
-    d_width = d_amax / ((T)half_d_bins);
+    d_width = half_d_bins > (T)0.0 ? d_amax / half_d_bins : (T)0.0;
     d_width = d_width == (T)0.0 ? (T)1.0 : d_width;
   }
 
-- 
2.43.0


From 829552a9e9dc77cce3b114d95a88a27ceee55b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 60/68] fix: apply gradient_scale of the input range also when
 the gradient is absolute

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index af3562f..311074c 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 37e07d4..c2e75d6 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1128,7 +1128,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From 49c13827ae95efc9eff1debb6bf08e6dc4fcbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 61/68] fix: input range calibration handles all-zero inputs,
 untouched tiles and training flags

---
 .../inference/calibration/calibration.py      | 62 ++++++++++---------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 793d5c5..ecd1288 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -78,6 +78,9 @@ def _calibration_pre_forward(
     x_input = input_args[0]
     x_input = x_input.reshape(-1, x_input.size(-1))
     x_input = x_input[~(x_input == 0.0).all(-1)]
+    if x_input.numel() == 0:
+        # nothing to learn from this batch
+        return
 
     ir_params = mod.rpu_config.pre_post.input_range  # type: ignore
     cache = global_cache[cache_key]
@@ -177,7 +180,20 @@ def calibrate_input_ranges(
     if not isinstance(model, AnalogLayerBase) or not isinstance(model, Module):
         raise ArgumentError("Expect an analog module")
 
-    was_training = cast(Module, model).training
+    if not force_all_layers:
+        for tile in model.analog_tiles():
+            rpu_config = tile.rpu_config
+            if (
+                isinstance(rpu_config, PrePostProcessingRPU)
+                and hasattr(rpu_config, "forward")
+                and rpu_config.pre_post.input_range.enable
+                and rpu_config.forward.noise_management != NoiseManagementType.NONE
+            ):
+                raise ConfigError(
+                    "Noise management should be turned off for input_range calibration."
+                )
+
+    was_training = {module: module.training for module in cast(Module, model).modules()}
     model = cast(Module, model).eval()
     handles = []
     is_perfect_dic = {}
@@ -208,10 +224,6 @@ def calibrate_input_ranges(
 
         io_pars = rpu_config.forward  # type: IOParameters
         if io_pars.noise_management != NoiseManagementType.NONE:
-            if not force_all_layers:
-                raise ConfigError(
-                    "Noise management should be turned off for input_range calibration."
-                )
             io_pars.noise_management = NoiseManagementType.NONE
             needs_set_state = True
 
@@ -249,25 +261,25 @@ def calibrate_input_ranges(
     for handle in handles:
         handle.remove()
 
-    # now create the input range fields
     for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
-
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-
-        if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
+        if tile_name not in cache:
             continue
 
-        if not force_all_layers and not rpu_config.pre_post.input_range.enable:
-            continue
+        # Restore the tile if necessary
+        if tile.rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+            tile_state = tile.__getstate__()
+            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                tile_name
+            ]
+            tile.__setstate__(tile_state)
 
+        rpu_config = tile.rpu_config
         inputs = cache[tile_name]
-        if inputs.numel() == 0:
+        is_cached = calibration_type in [
+            InputRangeCalibrationType.CACHE_QUANTILE,
+            InputRangeCalibrationType.MAX,
+        ]
+        if is_cached and inputs.numel() == 0:
             if verbose:
                 print(f"Warning: Tile {tile_name} cached inputs is empty")
             continue
@@ -280,14 +292,6 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
@@ -297,8 +301,8 @@ def calibrate_input_ranges(
         rpu_config.pre_post.input_range.init_value = tile.input_range.item()
         rpu_config.pre_post.input_range.calibration_info = calibration_type.value
 
-    if was_training:
-        model = cast(Module, model).train()
+    for module, training in was_training.items():
+        module.training = training
 
 
 def calibrate_quantization_ranges(
-- 
2.43.0


From ddc3ad637434dfae3ff3660bc164bafa0df13283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 62/68] fix: keep bias and weight scaling omega of exported
 analog layers

---
 src/aihwkit/cloud/converter/v1/i_mappings.py | 4 +++-
 src/aihwkit/cloud/converter/v1/mappings.py   | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 3773a73..df5df4b 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -148,7 +148,9 @@ class LayerFunction(Function):
         Raises ConversionError
         """
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            # analog layers store a flag, digital layers the parameter (or None)
+            bias = getattr(source, "bias", None)
+            return bias is not None and bias is not False
         if field == "rpu_config":
             # preset_cls = type(source.analog_tile.rpu_config)
             analog_tile = next(source.analog_tiles())
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 98766da..6d22c4a 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -136,7 +136,7 @@ class Function:
         if weight_scaling_omega is not None:
             if "rpu_config" not in kwargs or not hasattr(kwargs["rpu_config"], "mapping"):
                 raise ConversionError("Expect Mappable RPUConfig")
-            kwargs["rpu_config"].mapping.weights_scaling_omega = weight_scaling_omega
+            kwargs["rpu_config"].mapping.weight_scaling_omega = weight_scaling_omega
 
         return cls(**kwargs)
 
@@ -155,7 +155,9 @@ class LayerFunction(Function):
     def get_field_value_to_proto(self, source: Any, field: str, default: Any = None) -> Any:
         """Get the value of a field."""
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            # analog layers store a flag, digital layers the parameter (or None)
+            bias = getattr(source, "bias", None)
+            return bias is not None and bias is not False
 
         if field == "weight_scaling_omega":
             return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
-- 
2.43.0


From 86306d10a74b0668793a698d937fa5ff999d31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 63/68] fix: building a tile does not change the device list of
 a ReferenceUnitCell

---
 src/aihwkit/simulator/configs/compounds.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/simulator/configs/compounds.py b/src/aihwkit/simulator/configs/compounds.py
index 26eab3b..46ee263 100644
--- a/src/aihwkit/simulator/configs/compounds.py
+++ b/src/aihwkit/simulator/configs/compounds.py
@@ -8,7 +8,6 @@
 
 """Compound configuration for Analog (Resistive Device) tiles."""
 
-from copy import deepcopy
 from dataclasses import dataclass, field
 from typing import ClassVar, List, Union, Any, TYPE_CHECKING
 from warnings import warn
@@ -160,17 +159,13 @@ class ReferenceUnitCell(UnitCell):
         if not isinstance(self.unit_cell_devices, list):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
-        if len(self.unit_cell_devices) > 2:
-            self.unit_cell_devices = self.unit_cell_devices[:2]
-        elif len(self.unit_cell_devices) == 1:
-            self.unit_cell_devices = [
-                self.unit_cell_devices[0],
-                deepcopy(self.unit_cell_devices[0]),
-            ]
-        elif len(self.unit_cell_devices) != 2:
+        unit_cell_devices = self.unit_cell_devices[:2]
+        if len(unit_cell_devices) == 1:
+            unit_cell_devices = unit_cell_devices * 2
+        elif len(unit_cell_devices) != 2:
             raise ConfigError("ReferenceUnitCell expects two unit_cell_devices")
 
-        for param in self.unit_cell_devices:
+        for param in unit_cell_devices:
             device_parameters = param.as_bindings(data_type)
             if not vector_parameters.append_parameter(device_parameters):
                 raise ConfigError("Could not add unit cell device parameter")
-- 
2.43.0


From 1a923e84485f1263c5b10c23e71432abfe8fd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 64/68] fix: set_weights checks the shapes before anything is
 changed

---
 src/aihwkit/simulator/tiles/array.py     |  3 +++
 src/aihwkit/simulator/tiles/periphery.py | 20 ++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index f6c4812..926d8ce 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -108,6 +108,9 @@ class TileModuleArray(Module, TileModuleBase):
         """
         shape = [self.out_size, self.in_size]
         weight = weight.detach().reshape(shape)
+        if self.bias is not None and bias is not None:
+            # raise in case of a mismatch before any tile is changed
+            bias = bias.expand_as(self.bias)
 
         in_start = in_end = 0
         for in_size, in_tiles in zip(self.in_sizes, self.array):
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index c2e75d6..21cca79 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -152,17 +152,21 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 the mapping field.
 
         """
-        self.reference_combined_weights = None
-
+        digital_bias = None
         if bias is not None and self.digital_bias:
-            if not isinstance(bias, Tensor):
-                bias = from_numpy(array(bias))
-
-            self.bias.data.copy_(bias)
+            digital_bias = bias if isinstance(bias, Tensor) else from_numpy(array(bias))
             bias = None
 
-        if hasattr(self.tile, "set_weights_cuda"):
+        # raise in case of a mismatch before anything is changed
+        has_cuda_weights = hasattr(self.tile, "set_weights_cuda")
+        if has_cuda_weights:
             combined_weights = self._combine_weights_cuda(weight, bias)
+        else:
+            combined_weights = self._combine_weights(weight, bias)
+        if digital_bias is not None:
+            self.bias.data.copy_(digital_bias)
+
+        if has_cuda_weights:
             if apply_weight_scaling:
                 # apply_weight_scaling works on any device; re-transpose after.
                 combined_weights = self.apply_weight_scaling(
@@ -170,10 +174,10 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 ).t().contiguous()
             self.tile.set_weights_cuda(combined_weights)
         else:
-            combined_weights = self._combine_weights(weight, bias)
             if apply_weight_scaling:
                 combined_weights = self.apply_weight_scaling(combined_weights, weight_scaling_omega)
             self.tile.set_weights(combined_weights)
+        self.reference_combined_weights = None
         self._sync_analog_ctx_weights()
 
         if realistic:
-- 
2.43.0


From f50d42105ce6e7749b2206c49e7539ad2f62fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 65/68] fix: a state that cannot be loaded leaves the tile as
 it was

---
 .../simulator/tiles/inference_torch.py        |  5 +++--
 src/aihwkit/simulator/tiles/module.py         | 22 ++++++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 311074c..95bbc65 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -207,10 +207,11 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
             super().__setstate__(state)
             return
 
-        if self.__dict__.get("_backward_hook_handle") is not None:
-            self._backward_hook_handle.remove()
+        old_handle = self.__dict__.get("_backward_hook_handle")
         has_hook = state["_backward_hook_handle"] is not None
         super().__setstate__({**state, "_backward_hook_handle": None})
+        if old_handle is not None:
+            old_handle.remove()
         if has_hook:
             self._register_scale_hook()
 
diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 5bd684c..af22c92 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -10,7 +10,7 @@
 
 from typing import Dict, List, Optional, Union, Any, Callable, Tuple, NamedTuple
 from collections import OrderedDict
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from torch import Tensor
 from torch.nn import Module
@@ -106,11 +106,21 @@ class TileModule(Module, TileModuleBase):
     def __setstate__(self, state: Dict) -> None:
         # pylint: disable=no-member
 
-        if hasattr(super(Module, self), "__setstate__"):
-            # The TileWrapper is handling all the attributes
-            super(Module, self).__setstate__(state)
-        else:
-            Module.__setstate__(self, state)
+        backup = {
+            key: copy(value) if key in ("_parameters", "_buffers", "_modules") else value
+            for key, value in self.__dict__.items()
+        }
+        try:
+            if hasattr(super(Module, self), "__setstate__"):
+                # The TileWrapper is handling all the attributes
+                super(Module, self).__setstate__(state)
+            else:
+                Module.__setstate__(self, state)
+        except Exception:
+            # a rejected state leaves the tile as it was
+            self.__dict__.clear()
+            self.__dict__.update(backup)
+            raise
 
         # update parameter IDs
         for name in self._parameters:  # type: ignore
-- 
2.43.0


From d74e7f5bb3304b0ffaf23708d5ad344d78e16ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 66/68] fix: failing input range calibration restores the tiles
 and inner tiles are skipped

---
 .../inference/calibration/calibration.py      | 43 +++++++++++--------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index ecd1288..1cc0321 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -205,6 +205,10 @@ def calibrate_input_ranges(
         if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
             continue
 
+        if not hasattr(tile, "init_input_processing"):
+            # tile without periphery, e.g. the inner tiles of a TorchTransferTile
+            continue
+
         if not force_all_layers and not rpu_config.pre_post.input_range.enable:
             continue
 
@@ -254,25 +258,33 @@ def calibrate_input_ranges(
 
     # Pass through the samples
     progress_bar = tqdm if verbose else lambda x: x
-    for args, kwargs in progress_bar(dataloader):  # type: ignore
-        model(*args, **kwargs)
-
-    # Remove hooks
-    for handle in handles:
-        handle.remove()
+    try:
+        for args, kwargs in progress_bar(dataloader):  # type: ignore
+            model(*args, **kwargs)
+    finally:
+        # Remove hooks
+        for handle in handles:
+            handle.remove()
+
+        # Restore the tiles if necessary
+        for tile_name, tile in model.named_analog_tiles():
+            if tile_name not in cache:
+                continue
+
+            if tile.rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+                tile_state = tile.__getstate__()
+                tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                    tile_name
+                ]
+                tile.__setstate__(tile_state)
+
+        for module, training in was_training.items():
+            module.training = training
 
     for tile_name, tile in model.named_analog_tiles():
         if tile_name not in cache:
             continue
 
-        # Restore the tile if necessary
-        if tile.rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         rpu_config = tile.rpu_config
         inputs = cache[tile_name]
         is_cached = calibration_type in [
@@ -301,9 +313,6 @@ def calibrate_input_ranges(
         rpu_config.pre_post.input_range.init_value = tile.input_range.item()
         rpu_config.pre_post.input_range.calibration_info = calibration_type.value
 
-    for module, training in was_training.items():
-        module.training = training
-
 
 def calibrate_quantization_ranges(
     model: Module, loader: DataLoader, max_num_batches: int = 20
-- 
2.43.0


From 81db27ca57042054aa0f3c73fae94d35fedcdaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:00 +0000
Subject: [PATCH 67/68] fix: custom tiles draw uniform random weights from the
 given range

---
 src/aihwkit/simulator/tiles/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index af92a91..ed91655 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -213,7 +213,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         """
         if bmin >= bmax:
             raise TileError("Bmin should be smaller than bmax")
-        self.set_weights(rand_like(self.get_weights()) / (bmax - bmin) - bmin)
+        self.set_weights(rand_like(self.get_weights()) * (bmax - bmin) + bmin)
 
     def get_meta_parameters(self) -> Any:
         """Returns meta parameters."""
-- 
2.43.0


From 7e01093b1a433334d88f55bc7922ad60c6684a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:00 +0000
Subject: [PATCH 68/68] fix: programming weights twice, with given inputs or to
 zero, reading with given inputs and an analog bias

---
 src/aihwkit/simulator/tiles/periphery.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 21cca79..6cc0b7f 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -282,12 +282,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
@@ -301,7 +301,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         for _ in range(max_iter):
             y = self.tile.forward(x_values, False)
             error = y - target_values
-            if tolerance is not None and (error.abs().mean().item() / target_max) < tolerance:
+            if tolerance is not None and error.abs().mean().item() <= tolerance * target_max:
                 break
             self.tile.update(x_values, error, False)  # type: ignore
 
@@ -420,7 +420,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # calculate pseudo inverse (with bias, if necessary)
         if self.analog_bias:
-            ones_column = ones(self.in_size * over_sampling, 1, device=self.device, dtype=dtype)
+            ones_column = ones(x_values.size(0), 1, device=self.device, dtype=dtype)
             x_values = cat([x_values, ones_column], axis=1)
 
         est_weight = lstsq(x_values, y_values).solution.T.cpu()  # pylint: disable=not-callable
-- 
2.43.0

