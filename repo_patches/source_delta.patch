From ed68120ca315ddc9a945a552d639fbb59568ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 01/48] fix: sound hull of s-shape activations when a bound is
 exactly 0

The sign-based selection gave a weight of 1/2 to the constant case as soon as
the lower (resp. upper) bound was exactly 0, e.g. after a relu: the resulting
affine bound mixed two candidates and was violated by the function.
---
 src/decomon/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..2615878 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -554,7 +554,6 @@ def get_linear_hull_s_shape(
 
     z_value = K.cast(0.0, dtype=dtype)
     o_value = K.cast(1.0, dtype=dtype)
-    t_value = K.cast(2.0, dtype=dtype)
 
     # flatten
     shape = list(u_c.shape[1:])
@@ -573,7 +572,9 @@ def get_linear_hull_s_shape(
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-    alpha_u_1 = (o_value - alpha_u_0) * ((K.sign(l_c_flat) + o_value) / t_value)
+    alpha_u_1 = (o_value - alpha_u_0) * K.where(
+        K.greater_equal(l_c_flat, z_value), o_value + z_value * l_c_flat, z_value * l_c_flat
+    )
 
     w_u_0 = coeff
     b_u_0 = -w_u_0 * l_c_flat + s_l
@@ -591,7 +592,9 @@ def get_linear_hull_s_shape(
     alpha_l_0 = K.where(
         K.greater_equal(s_l_prime, coeff), o_value + z_value * l_c_flat, z_value * l_c_flat
     )  # (None, n)
-    alpha_l_1 = (o_value - alpha_l_0) * ((K.sign(-u_c_flat) + o_value) / t_value)
+    alpha_l_1 = (o_value - alpha_l_0) * K.where(
+        K.less_equal(u_c_flat, z_value), o_value + z_value * u_c_flat, z_value * u_c_flat
+    )
 
     w_l_0 = coeff
     b_l_0 = -w_l_0 * u_c_flat + s_u
-- 
2.43.0


From 08f16dfe0de7876b2ea954b25e613194c29bcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 02/48] fix: sound tangent bounds of s-shape activations

The point t returned by the grid search was not a tangent point, and the line
joining it to the extremity of the interval crossed the function. Take the
first point of the grid whose tangent encloses the function instead.
---
 src/decomon/utils.py | 74 +++++++++++---------------------------------
 1 file changed, 18 insertions(+), 56 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 2615878..87b6fdb 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -631,39 +631,20 @@ def get_t_upper(
         the upper affine bounds in this subcase
     """
 
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
-    u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
-    l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
-    t = K.cast(np.linspace(0, 1, 100)[None, None, :], dtype=u_c_flat.dtype) * u_c_reshaped  # (None, n , 100)
+    # step1: find t, the smallest point of the grid whose tangent is above func at the lower bound
+    # func being concave on [0, u_c] and convex on [l_c, 0], such a tangent is above func everywhere in between
+    t = K.cast(np.linspace(0, 1, 100)[None, None, :], dtype=u_c_flat.dtype) * K.expand_dims(u_c_flat, -1)  # (None, n , 100)
 
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
-
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )  # (None, n)
+    invalid = K.less(s_p_t * (K.expand_dims(l_c_flat, -1) - t) + s_t, K.expand_dims(s_l, -1))  # (None, n, 100)
+    n_invalid = K.sum(K.cast(invalid, dtype=u_c_flat.dtype), -1)  # (None, n)
+    t_value = K.clip(n_invalid / 99, 0, 1) * u_c_flat  # (None, n), upper bound if no other point is valid
 
-    s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
-    b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
+    # step2: tangent in t
+    w_u = f_prime(t_value)  # (None, n)
+    b_u = func(t_value) - w_u * t_value
 
     return [w_u, b_u]
 
@@ -688,38 +669,19 @@ def get_t_lower(
     Returns:
         the lower affine bounds in this subcase
     """
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
-    u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
-    l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
-    t = K.cast(np.linspace(0, 1.0, 100)[None, None, :], dtype=u_c_flat.dtype) * l_c_reshaped  # (None, n , 100)
+    # step1: find t, the largest point of the grid whose tangent is below func at the upper bound
+    # func being convex on [l_c, 0] and concave on [0, u_c], such a tangent is below func everywhere in between
+    t = K.cast(np.linspace(0, 1, 100)[None, None, :], dtype=u_c_flat.dtype) * K.expand_dims(l_c_flat, -1)  # (None, n , 100)
 
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )
+    invalid = K.greater(s_p_t * (K.expand_dims(u_c_flat, -1) - t) + s_t, K.expand_dims(s_u, -1))  # (None, n, 100)
+    n_invalid = K.sum(K.cast(invalid, dtype=u_c_flat.dtype), -1)  # (None, n)
+    t_value = K.clip(n_invalid / 99, 0, 1) * l_c_flat  # (None, n), lower bound if no other point is valid
 
-    s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
-    b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
+    # step2: tangent in t
+    w_l = f_prime(t_value)  # (None, n)
+    b_l = func(t_value) - w_l * t_value
 
     return [w_l, b_l]
-- 
2.43.0


From 4ac73d4f6032a22d27752cf3379f1da85947316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 03/48] fix: linear relaxation of softplus

The hull was built from the values of softsign, was set to 0 on negative
inputs, and did not support the adaptative slope: the affine bounds of softplus
were not bounds of softplus.
---
 src/decomon/utils.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 87b6fdb..497a71d 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -213,10 +213,8 @@ def get_linear_hull_tanh(upper: Tensor, lower: Tensor, slope: Union[str, Slope],
 
 def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slope], **kwargs: Any) -> list[Tensor]:
     slope = Slope(slope)
-    # in case upper=lower, this cases are
-    # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -231,6 +229,9 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         index_b = o_value - index_a
         w_l = index_b
         b_l = z_value * b_u
+    elif slope == Slope.A_SLOPE:
+        w_l = K.clip(K.sign(w_u - 0.5), 0, 1)
+        b_l = z_value * b_u
     elif slope == Slope.Z_SLOPE:
         w_l = z_value * w_u
         b_l = z_value * b_u
@@ -243,13 +244,6 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     else:
         raise ValueError(f"Unknown slope {slope}")
 
-    index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
-
-    w_u = (o_value - index_dead) * w_u
-    w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
-    b_l = (o_value - index_dead) * b_l
-
     if "finetune" in kwargs:
         # weighted linear combination
         alpha_u, alpha_l = kwargs["finetune"]
@@ -257,7 +251,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From c5920148707bc399638ba71bcd27a7ccdb562349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 04/48] fix: backward sigmoid, tanh and softplus on
 multi-dimensional inputs

As for relu and softsign, flatten the relaxation: it was otherwise taken for a
(non diagonal) weight matrix, or rejected by the next merge.
---
 src/decomon/backward_layers/activations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..259f382 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -115,7 +115,9 @@ def backward_sigmoid(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
+    bounds = get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
+    dim = int(np.prod(u_c.shape[1:]))
+    return [K.reshape(elem, (-1, dim)) for elem in bounds]
 
 
 def backward_tanh(
@@ -146,7 +148,9 @@ def backward_tanh(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
+    bounds = get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
+    dim = int(np.prod(u_c.shape[1:]))
+    return [K.reshape(elem, (-1, dim)) for elem in bounds]
 
 
 def backward_hard_sigmoid(
@@ -322,7 +326,9 @@ def backward_softplus(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
-    return get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
+    bounds = get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
+    dim = int(np.prod(u_c.shape[1:]))
+    return [K.reshape(elem, (-1, dim)) for elem in bounds]
 
 
 def backward_softsign(
-- 
2.43.0


From 039a20aaa01f0572f0d94545a13e317c57564ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 05/48] fix: backward Permute

The rows of the identity were reshaped with the input shape instead of the
output one, which is wrong as soon as the permutation changes the shape.
---
 src/decomon/backward_layers/backward_layers.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..0497f41 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -507,19 +507,13 @@ class BackwardPermute(BackwardLayer):
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
-        # w_u_out (None, n_in, n_out)
-        y = inputs[-1]
+        # permute the (flattened) outputs of the identity: w_u_out (None, n_in, n_out)
+        shape = list(inputs[-1].shape[1:])
         n_dim = w_u_out.shape[1]
-        n_out = w_u_out.shape[-1]
-        shape = list(y.shape[1:])
-
-        w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
-        w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
+        dims = [0, 1] + [dim + 1 for dim in self.dims]
 
-        dims = [0] + list(self.dims) + [len(y.shape)]
-        dims = list(np.argsort(dims))
-        w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
-        w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
+        w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
+        w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
-- 
2.43.0


From 6678437c5bb215faae9a528ece5fb0deffbf3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 06/48] fix: affine component of convolutions for any kernel,
 stride, dilation and data format

get_toeplitz was restricted to square kernels, and wrong for channels_first,
strides or dilation. Apply instead the convolution to the canonical basis.
---
 .../backward_layers/backward_layers.py        |   2 +-
 src/decomon/backward_layers/utils_conv.py     | 152 ++++--------------
 2 files changed, 28 insertions(+), 126 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 0497f41..eab0631 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -170,7 +170,7 @@ class BackwardConv2D(BackwardLayer):
         """Express the implicit affine matrix of the convolution layer.
 
         Conv is a linear operator but its affine component is implicit
-        we use im2col and extract_patches to express the affine matrix
+        we apply it on the canonical basis to express the affine matrix
         Note that this matrix is Toeplitz
 
         Args:
diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..05580e4 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -3,8 +3,7 @@ import warnings
 import keras
 import keras.ops as K
 import numpy as np
-from keras.layers import Conv2D, Input
-from keras.ops.image import extract_patches
+from keras.layers import Conv2D
 
 from decomon.types import BackendTensor
 
@@ -12,7 +11,7 @@ from decomon.types import BackendTensor
 def get_toeplitz(conv_layer: Conv2D, flatten: bool = True) -> BackendTensor:
     """Express formally the affine component of the convolution
     Conv is a linear operator but its affine component is implicit
-    we use im2col and extract_patches to express the affine matrix
+    we apply it on the canonical basis to express the affine matrix
     Note that this matrix is Toeplitz
 
     Args:
@@ -24,136 +23,39 @@ def get_toeplitz(conv_layer: Conv2D, flatten: bool = True) -> BackendTensor:
     """
     if conv_layer.dtype == "float16":
         warnings.warn("Loss of precision for float16 !")
-    if conv_layer.data_format == "channels_last":
-        return get_toeplitz_channels_last(conv_layer, flatten)
-    else:
-        return get_toeplitz_channels_first(conv_layer, flatten)
-
-
-def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> BackendTensor:
-    """Express formally the affine component of the convolution for data_format=channels_last
-    Conv is a linear operator but its affine component is implicit
-    we use im2col and extract_patches to express the affine matrix
-    Note that this matrix is Toeplitz
-
-    Args:
-        conv_layer: Keras Conv2D layer or Decomon Conv2D layer
-        flatten (optional): convert the affine component as a 2D matrix (n_in, n_out). Defaults to True.
-
-    Returns:
-         the affine operator W: conv(x)= Wx + bias
-    """
 
     input = conv_layer.input
-    if isinstance(input, keras.KerasTensor):
-        input_shape = input.shape
-    else:  # list of inputs
-        input_shape = input[-1].shape
-    _, w_in, h_in, c_in = input_shape
+    if not isinstance(input, keras.KerasTensor):  # list of inputs
+        input = input[-1]
     output = conv_layer.output
-    if isinstance(output, keras.KerasTensor):
-        output_shape = output.shape
-    else:  # list of outputs
-        output_shape = output[-1].shape
-    _, w_out, h_out, c_out = output_shape
-
-    kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
-
-    diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
-
-    diag_patches = extract_patches(
+    if not isinstance(output, keras.KerasTensor):  # list of outputs
+        output = output[-1]
+    input_shape = tuple(input.shape[1:])
+    output_shape = tuple(output.shape[1:])
+    n_in, n_out = int(np.prod(input_shape)), int(np.prod(output_shape))
+
+    # convolution is not available in float16 on every device
+    dtype = "float32" if conv_layer.dtype == "float16" else conv_layer.dtype
+
+    # the rows of the affine component are the images of the canonical basis by the convolution (without bias)
+    diag = K.reshape(K.eye(n_in, dtype=dtype), (n_in,) + input_shape)
+    if conv_layer.data_format == "channels_first":
+        # channels_first is not available on every device
+        diag = K.transpose(diag, (0, 2, 3, 1))
+    w = K.conv(
         diag,
-        size=[filter_size, filter_size],
-        strides=list(conv_layer.strides),
-        dilation_rate=list(conv_layer.dilation_rate),
+        K.cast(conv_layer.kernel, dtype),
+        strides=tuple(conv_layer.strides),
         padding=conv_layer.padding,
+        data_format="channels_last",
+        dilation_rate=tuple(conv_layer.dilation_rate),
     )
-
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
-
-    shape = list(range(len(diag_patches_.shape)))
-    shape[-1] -= 1
-    shape[-2] += 1
-    diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
-
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
-        None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
-
-    # element-wise multiplication is only compatible with float32
-    diag_patches_ = K.cast(diag_patches_, "float32")
-    kernel = K.cast(kernel, "float32")
-
-    w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
-
-    w = K.cast(w, conv_layer.dtype)
-    # cast w for dtype
-
-    if flatten:
-        return K.reshape(w, (w_in * h_in * c_in, w_out * h_out * c_out))
-    else:
-        return w
-
-
-def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> BackendTensor:
-    """Express formally the affine component of the convolution for data_format=channels_first
-    Conv is a linear operator but its affine component is implicit
-    we use im2col and extract_patches to express the affine matrix
-    Note that this matrix is Toeplitz
-
-    Args:
-        conv_layer: Keras Conv2D layer or Decomon Conv2D layer
-        flatten (optional): convert the affine component as a 2D matrix (n_in, n_out). Defaults to True.
-
-    Returns:
-        the affine operator W: conv(x)= Wx + bias
-    """
-
-    input = conv_layer.input
-    if isinstance(input, keras.KerasTensor):
-        input_shape = input.shape
-    else:  # list of inputs
-        input_shape = input[-1].shape
-    _, c_in, w_in, h_in = input_shape
-    output = conv_layer.output
-    if isinstance(output, keras.KerasTensor):
-        output_shape = output.shape
-    else:  # list of outputs
-        output_shape = output[-1].shape
-    _, c_out, w_out, h_out = output_shape
-    kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
-
-    diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
-
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
-
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
-
-    shape = list(range(len(diag_patches_.shape)))
-    shape[-1] -= 1
-    shape[-2] += 1
-    diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
-
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
-        None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
-
-    w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    if conv_layer.data_format == "channels_first":
+        w = K.transpose(w, (0, 3, 1, 2))
 
     w = K.cast(w, conv_layer.dtype)
-    # cast w for dtype
 
     if flatten:
-        return K.reshape(w, (w_in * h_in * c_in, w_out * h_out * c_out))
+        return K.reshape(w, (n_in, n_out))
     else:
-        return w
+        return K.reshape(w, input_shape + output_shape)
-- 
2.43.0


From 103b074af0a557a9a4a4deae878c75c7eadb5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 07/48] fix: crown conversion of models using a layer several
 times

The backward layers were created once per node, with the same name, which
keras refuses.
---
 src/decomon/models/backward_cloning.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..116add6 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -70,12 +70,13 @@ def retrieve_layer(
     backward_map: dict[int, BackwardLayer],
     joint: bool = True,
 ) -> BackwardLayer:
-    if id(node) in backward_map:
-        backward_layer = backward_map[id(node)]
+    # a layer used by several nodes has a single backward layer (and name)
+    if id(node.operation) in backward_map:
+        backward_layer = backward_map[id(node.operation)]
     else:
         backward_layer = layer_fn(node.operation)
         if joint:
-            backward_map[id(node)] = backward_layer
+            backward_map[id(node.operation)] = backward_layer
     return backward_layer
 
 
-- 
2.43.0


From c56c9697076af23a8ffba5d7453bf523bd749ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 08/48] fix: crown conversion of models with multi-dimensional
 intermediate layers

The intermediate bounds computed by crown are flattened, and were fed as they
are to layers which rely on the shape of their input.
---
 src/decomon/models/backward_cloning.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 116add6..8cc6659 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union
 import keras
 import keras.ops as K
 from keras.config import floatx
-from keras.layers import Concatenate, Lambda, Layer
+from keras.layers import Concatenate, Lambda, Layer, Reshape
 from keras.models import Model
 from keras.src.ops.node import Node
 from keras.src.utils.python_utils import to_list
@@ -80,6 +80,25 @@ def retrieve_layer(
     return backward_layer
 
 
+def reshape_bounds(
+    bounds: list[keras.KerasTensor], shape: tuple[Optional[int], ...], mode: ForwardMode
+) -> list[keras.KerasTensor]:
+    """Reshape flattened bounds (without dc_decomp) into the bounds of a tensor of the given shape."""
+    if len(shape) <= 2:
+        return bounds
+    shape_wo_batchsize = tuple(shape[1:])
+    if mode == ForwardMode.IBP:
+        x, w_indices = [], []
+    elif mode == ForwardMode.AFFINE:
+        x, bounds, w_indices = bounds[:1], bounds[1:], [0, 2]
+    else:
+        x, bounds, w_indices = bounds[:1], bounds[1:], [1, 4]
+    return x + [
+        Reshape(((bound.shape[1],) if i in w_indices else ()) + shape_wo_batchsize)(bound)
+        for i, bound in enumerate(bounds)
+    ]
+
+
 def crown_(
     node: Node,
     ibp: bool,
@@ -237,6 +256,7 @@ def get_input_nodes(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     crown_map: dict[int, list[keras.KerasTensor]] = {}
+    mode = get_mode(ibp, affine)
     for depth in keys:
         nodes = dico_nodes[depth]
         for node in nodes:
@@ -276,7 +296,8 @@ def get_input_nodes(
                         if set_mode_layer is None:
                             set_mode_layer = Convert2BackwardMode(get_mode(ibp, affine), perturbation_domain)
                         output_crown = set_mode_layer(input_tensors + output_crown)
-                        output += to_list(output_crown)
+                        # crown bounds are flattened
+                        output += reshape_bounds(to_list(output_crown), parent.output_tensors[0].shape, mode)
                         # crown_map[id(parent)]=output_crown_
 
                 input_map[id(node)] = output
-- 
2.43.0


From 003d8c4f3dcca57fbbc4e48106dd3ffd92c7843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 09/48] fix: backward conversion in ibp mode on a ball domain

Convert2BackwardMode rebuilt a box from the input bounds, and then optimized over it as if it was a ball.
---
 src/decomon/models/crown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..6772cd3 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -69,15 +69,18 @@ class Convert2BackwardMode(Layer):
         w_u_out, b_u_out, w_l_out, b_l_out = backward_bounds
         empty_tensor = K.convert_to_tensor([])
 
+        perturbation_domain = self.perturbation_domain
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
         else:
+            # only the bounds of the input are known: the box [l_c, u_c] encloses any perturbation domain
+            perturbation_domain = BoxDomain()
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From c781e20c5d31355a01525f5c5df64fbe487104bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 10/48] fix: changing the domain of a decomon model

set_domain left the previous radius and norm in nested layers, in the bounds of the input and in the
layers' specs, and get_range_noise and get_adv_noise on a decomon model were not sound.
---
 src/decomon/models/convert.py |  4 ++++
 src/decomon/models/models.py  |  3 ++-
 src/decomon/models/utils.py   | 26 ++++++++++----------------
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..afcc428 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -1,4 +1,5 @@
 from collections.abc import Callable
+from copy import copy
 from typing import Any, Optional, Union
 
 import keras
@@ -186,6 +187,9 @@ def clone(
 ) -> DecomonModel:
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
+    else:
+        # the decomon model owns its domain: see DecomonModel.set_domain()
+        perturbation_domain = copy(perturbation_domain)
     if back_bounds is None:
         back_bounds = []
     if extra_inputs is None:
diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..ee2ab70 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -65,7 +65,8 @@ class DecomonModel(keras.Model):
 
     def set_domain(self, perturbation_domain: PerturbationDomain) -> None:
         perturbation_domain = _check_domain(self.perturbation_domain, perturbation_domain)
-        self.perturbation_domain = perturbation_domain
+        # update in place the domain: it is shared with all the layers (nested ones included) and the input bounds
+        self.perturbation_domain.__dict__.update(perturbation_domain.__dict__)
         for layer in self.layers:
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..8452115 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -118,25 +118,19 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
+        # whatever p, the tightest box around the ball is x +- eps
+        # (eps read at call time, as the domain of a decomon model can be updated)
+        if ibp:
+            u_c_tensor = Lambda(lambda z: z + K.cast(perturbation_domain.eps, dtype=z.dtype), dtype=z_tensor.dtype)(
+                z_tensor
+            )
+            l_c_tensor = Lambda(lambda z: z - K.cast(perturbation_domain.eps, dtype=z.dtype), dtype=z_tensor.dtype)(
+                z_tensor
+            )
 
-        else:
+        if affine:
             W = BatchedIdentityLike()(z_tensor)
             b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From b3dd06ac26d522556f1eef9bfcd62252463c03bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 11/48] fix: refine_boxes on multi-dimensional boxes

x_max was rebuilt from x_min.
---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..38d6ae1 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -763,7 +763,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From 9e26d561a16647a7f04823885ca9fdea5c43a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 12/48] fix: range of models with several outputs over
 sub-boxes

bounds of different outputs and different boxes were mixed.
---
 src/decomon/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 38d6ae1..27e776a 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,8 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        u_out = np.max(np.reshape(u_out, [-1, n_split] + list(u_out.shape[1:])), 1)
+        l_out = np.min(np.reshape(l_out, [-1, n_split] + list(l_out.shape[1:])), 1)
     return u_out, l_out
 
 
-- 
2.43.0


From d56e598aed1805c0a33776b7b74c94e1e9979018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 13/48] fix: random refinement and labels in refine_box

---
 src/decomon/wrapper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 27e776a..7916e53 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -860,12 +860,15 @@ def refine_box(
                 return results.reshape((n_x, n_split, -1))
 
         if func.__name__ in [elem.__name__ for elem in [get_adv_box, check_adv_box]]:
+            # same labels for all the sub-boxes of a sample
             results = func(
                 decomon_model,
                 x_min=x_min_split,
                 x_max=x_max_split,
-                source_labels=source_labels,
-                target_labels=target_labels,
+                source_labels=np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0),
+                target_labels=(
+                    None if target_labels is None else np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0)
+                ),
                 batch_size=batch_size,
             )
 
@@ -881,7 +884,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
-- 
2.43.0


From b7275f3b009eb903c290b9d21d49d42d382703d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 14/48] fix: target labels of check_adv_box

---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 7916e53..cf447ac 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -415,7 +415,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
-- 
2.43.0


From 5ba08e94ba906c3755ce3170f82e1759f0fafa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 15/48] fix: minibatches with target labels in check_adv_box
 and get_adv_noise

all the target labels were given to each minibatch.
---
 src/decomon/wrapper.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index cf447ac..7b8d313 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -341,16 +341,12 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
         else:
-            target_labels_list = [target_labels] * (len(x_reshaped) // batch_size + r)
+            target_labels_list = [None] * (len(x_reshaped) // batch_size + r)
 
         return np.concatenate(
             [
@@ -982,16 +978,12 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
         else:
-            target_labels_list = [target_labels] * (len(x_reshaped) // batch_size + r)
+            target_labels_list = [None] * (len(x_reshaped) // batch_size + r)
 
         results = [
             get_adv_noise(
-- 
2.43.0


From 69714c4b17db0d3d97ddbd8a50113cbbc34dd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 16/48] fix: get_adv_noise

- radius looked for on the Keras model
- affine modes always rejected
- the dual norm of p=2 was squared
- integer target label replaced by the source label
---
 src/decomon/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 7b8d313..577a157 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -946,7 +946,7 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps, p = decomon_model.perturbation_domain.eps, decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -965,7 +965,7 @@ def get_adv_noise(
 
     if target_labels is not None:
         if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
+            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
         target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
 
     if batch_size > 0:
@@ -1062,7 +1062,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1080,9 +1080,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From 73749b063c1d3bc166e00809b83f88ed43d5e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 17/48] fix: back_bounds with forward methods

They were ignored: the outputs were bounds of the model itself, and get_adv_box on them was meaningless.
---
 src/decomon/models/convert.py | 11 +++++++++++
 src/decomon/models/crown.py   | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index afcc428..9886930 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -3,13 +3,16 @@ from copy import copy
 from typing import Any, Optional, Union
 
 import keras
+import keras.ops as K
 from keras.layers import InputLayer, Layer
 from keras.models import Model
+from keras.src.utils.python_utils import to_list
 
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
 from decomon.layers.convert import to_decomon
 from decomon.models.backward_cloning import convert_backward
+from decomon.models.crown import MergeForwardWithBackBounds
 from decomon.models.forward_cloning import (
     LayerMapDict,
     OutputMapDict,
@@ -157,6 +160,14 @@ def convert(
             **kwargs,
         )
     else:
+        if len(back_bounds):
+            if len(to_list(model.output)) > 1 or len(output[-1].shape) > 2:
+                raise NotImplementedError("back_bounds are only implemented for models with one flattened output.")
+            if len(back_bounds) == 1:
+                C = back_bounds[0]
+                back_bounds = [C, K.zeros_like(C[:, 0])] * 2
+            output = MergeForwardWithBackBounds(get_mode(ibp, affine))(output + back_bounds)
+
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6772cd3..5f8234d 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -100,6 +100,41 @@ class Convert2BackwardMode(Layer):
         return config
 
 
+class MergeForwardWithBackBounds(Layer):
+    """Compose the outputs of a forward conversion with the backward bounds given by the user."""
+
+    def __init__(self, mode: Union[str, ForwardMode], **kwargs: Any):
+        super().__init__(**kwargs)
+        self.mode = ForwardMode(mode)
+
+    def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
+        forward_outputs, back_bounds = inputs[:-4], inputs[-4:]
+        if self.mode == ForwardMode.IBP:
+            return self._merge_constants(forward_outputs, back_bounds)
+        elif self.mode == ForwardMode.AFFINE:
+            x, w_u, b_u, w_l, b_l = forward_outputs
+            return [x] + merge_with_previous([w_u, b_u, w_l, b_l] + back_bounds)
+        else:
+            x, u_c, w_u, b_u, l_c, w_l, b_l = forward_outputs
+            u_c, l_c = self._merge_constants([u_c, l_c], back_bounds)
+            w_u, b_u, w_l, b_l = merge_with_previous([w_u, b_u, w_l, b_l] + back_bounds)
+            return [x, u_c, w_u, b_u, l_c, w_l, b_l]
+
+    @staticmethod
+    def _merge_constants(constants: list[BackendTensor], back_bounds: list[BackendTensor]) -> list[BackendTensor]:
+        u_c, l_c = constants
+        w_u, b_u, w_l, b_l = back_bounds
+        axes = (-1, -2)
+        u = batch_dot(u_c, K.relu(w_u), axes) - batch_dot(l_c, K.relu(-w_u), axes) + b_u
+        l = batch_dot(l_c, K.relu(w_l), axes) - batch_dot(u_c, K.relu(-w_l), axes) + b_l
+        return [u, l]
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"mode": self.mode})
+        return config
+
+
 class MergeWithPrevious(Layer):
     def __init__(
         self,
-- 
2.43.0


From 5bf966dce7efd172da8abd710d47487c1ed3fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 18/48] fix: source and target labels of get_adv_box with
 back_bounds

The objective of the source label itself (always 0) was kept, target labels were ignored, and
several source labels were summed, which is not sound.
---
 src/decomon/wrapper.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 577a157..a4b569a 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -141,6 +141,21 @@ def get_adv_box(
                 ]
             )
 
+    elif decomon_model.backward_bounds and np.max(np.sum(source_labels, -1)) > 1:
+        # the linear objective can take into account only one source label: one call for each of them
+        if target_labels is None:
+            target_labels = 1 - source_labels
+        order = np.argsort(-source_labels, axis=-1, kind="stable")
+        adv_score_list = []
+        for k in range(int(np.max(np.sum(source_labels, -1)))):
+            is_source = np.take_along_axis(source_labels, order[:, k : k + 1], -1) > 0
+            index = np.where(is_source, order[:, k : k + 1], order[:, :1])
+            one_source = np.zeros_like(source_labels)
+            np.put_along_axis(one_source, index, 1, -1)
+            one_source = one_source * source_labels
+            adv_score_list.append(get_adv_box(decomon_model, x_min, x_max, one_source, target_labels, -1))
+        adv_score = np.max(adv_score_list, axis=0)
+
     else:
         ibp = decomon_model.ibp
         affine = decomon_model.affine
@@ -171,7 +186,8 @@ def get_adv_box(
 
             # add penalties on biases
             if backward:
-                return np.max(u_c, -1)
+                upper = u_c - (1 - t_tensor_reshaped) * (u_c.max() - u_c.min() + 0.1)
+                return np.max(upper, -1)
             else:
                 upper = u_c[:, :, None] - l_c[:, None]
             const = upper.max() - upper.min()
@@ -214,6 +230,7 @@ def get_adv_box(
                     + b_u
                 )
 
+                upper -= (1 - t_tensor_reshaped) * (upper.max() - upper.min() + 0.1)
                 return upper.max(-1)
 
             # add penalties on biases
-- 
2.43.0


From cebbfffe1d11597524a4acf13ad7e365bcaaae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 19/48] fix: max pooling with fast=False for any pool size,
 padding and data format

---
 src/decomon/layers/maxpooling.py | 137 +++++++++++++------------------
 1 file changed, 55 insertions(+), 82 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index c6998c2..084e573 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -87,74 +87,46 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         for i in range(self.pool_size[0]):
             for j in range(self.pool_size[1]):
-                self.filters[i, j, 0, i * self.pool_size[0] + j] = 1
-
-        self.filters_w = self.filters[None]
-        self.strides_w = (1,) + self.strides
-
-        def conv_(x: BackendTensor) -> BackendTensor:
-            if self.data_format in [None, "channels_last"]:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters,
-                            strides=list(self.strides),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        -2,
-                    ),
-                    self.dtype,
-                )
-            else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters,
-                            strides=list(self.strides),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
-                    ),
-                    self.dtype,
-                )
+                self.filters[i, j, 0, i * self.pool_size[1] + j] = 1
+
+        # axis of the channels and of the elements of a pooling window in the output of internal_op
+        channels_last = self.data_format in [None, "channels_last"]
+        self.axis_channel = -1 if channels_last else 1
+        self.axis_window = -1 if channels_last else 2
+
+        def conv_(x: BackendTensor, pad_value: BackendTensor) -> BackendTensor:
+            # the padding must never be greater than the elements of the window
+            windows = pad_value + K.conv(
+                x - pad_value,
+                K.cast(self.filters, x.dtype),
+                strides=list(self.strides),
+                padding=self.padding,
+                data_format=self.data_format,
+            )
+            return K.expand_dims(windows, -2 if channels_last else 1)
 
         def conv_w_(x: BackendTensor) -> BackendTensor:
-            if self.data_format in [None, "channels_last"]:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        -2,
-                    ),
-                    self.dtype,
-                )
-            else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
-                    ),
-                    self.dtype,
-                )
+            n_in = x.shape[1]
+            windows = conv_(K.reshape(x, (-1,) + tuple(x.shape[2:])), K.cast(0.0, x.dtype))
+            return K.reshape(windows, (-1, n_in) + tuple(windows.shape[1:]))
 
         self.internal_op = conv_
         self.internal_op_w = conv_w_
 
+    def _split_windows(self, x: BackendTensor, pad_value: BackendTensor) -> BackendTensor:
+        axis = self.axis_channel
+        return K.concatenate(
+            [self.internal_op(elem, pad_value) for elem in K.split(x, x.shape[axis], axis)],
+            -2 if axis == -1 else axis,
+        )
+
+    def _split_windows_w(self, w: BackendTensor) -> BackendTensor:
+        axis = self.axis_channel if self.axis_channel == -1 else self.axis_channel + 1
+        return K.concatenate(
+            [self.internal_op_w(elem) for elem in K.split(w, w.shape[axis], axis)],
+            -2 if axis == -1 else axis,
+        )
+
     def _pooling_function_fast(
         self,
         inputs: list[BackendTensor],
@@ -188,37 +160,34 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         self,
         inputs: list[BackendTensor],
     ) -> list[BackendTensor]:
-        x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = self.inputs_outputs_spec.get_fullinputs_from_inputsformode(
-            inputs, compute_ibp_from_affine=False
-        )
+        x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = self.inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
-        input_shape = self.inputs_outputs_spec.get_kerasinputshape(inputs)
-        n_split = input_shape[-1]
+
+        def lowest(x: BackendTensor) -> BackendTensor:
+            if self.padding == "valid":
+                return K.cast(0.0, x.dtype)
+            return K.min(x, [1, 2, 3], keepdims=True)
+
+        pad_value = lowest(l_c)
 
         if self.dc_decomp:
-            h_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(h, n_split, -1)],
-                -2,
-            )
-            g_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(g, n_split, -1)],
-                -2,
-            )
+            h_out = self._split_windows(h, lowest(h))
+            g_out = self._split_windows(g, lowest(g))
         else:
             h_out, g_out = empty_tensor, empty_tensor
 
         if self.ibp:
-            u_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(u_c, n_split, -1)], -2)
-            l_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(l_c, n_split, -1)], -2)
+            u_c_out = self._split_windows(u_c, pad_value)
+            l_c_out = self._split_windows(l_c, pad_value)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            b_u_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_u, n_split, -1)], -2)
-            b_l_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_l, n_split, -1)], -2)
-            w_u_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_u, n_split, -1)], -2)
-            w_l_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_l, n_split, -1)], -2)
+            b_u_out = self._split_windows(b_u, pad_value)
+            b_l_out = self._split_windows(b_l, pad_value)
+            w_u_out = self._split_windows_w(w_u)
+            w_l_out = self._split_windows_w(w_l)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
@@ -227,7 +196,11 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
 
         return max_(
-            outputs, axis=-1, dc_decomp=self.dc_decomp, mode=self.mode, perturbation_domain=self.perturbation_domain
+            outputs,
+            axis=self.axis_window,
+            dc_decomp=self.dc_decomp,
+            mode=self.mode,
+            perturbation_domain=self.perturbation_domain,
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-- 
2.43.0


From 57771795b37aa2f0bf3f35fe51c7d9f1bb98c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 20/48] fix: forward softmax bounded softmax(-x), and affine
 bounds of frac_pos

---
 src/decomon/layers/activations.py |  3 +--
 src/decomon/layers/utils.py       | 14 ++++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..7dafdda 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -19,7 +19,6 @@ from decomon.layers.utils import exp, expand_dims, frac_pos, multiply, softplus_
 from decomon.types import Tensor
 from decomon.utils import (
     get_linear_hull_s_shape,
-    minus,
     relu_,
     sigmoid_prime,
     softsign_prime,
@@ -471,7 +470,7 @@ def softmax(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..3dbba57 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -214,21 +214,27 @@ def frac_pos(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+    if mode == ForwardMode.AFFINE:
+        # bounds deduced from affine bounds may not be positive
+        l_c = K.maximum(K.cast(epsilon(), dtype=l_c.dtype), l_c)
+        u_c = K.maximum(l_c, u_c)
+
     u_c_out = K.cast(1.0, dtype=l_c.dtype) / l_c
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # 1/x is decreasing and convex: chord above, tangent below
+        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 3d5c7d946ae4531f85bb08ca0f8de618fd299b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 21/48] fix: Concatenate and Dot on multi-dimensional inputs
 and negative axes

---
 src/decomon/layers/decomon_merge_layers.py | 35 ++++++++++++++--------
 src/decomon/layers/utils.py                |  3 +-
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..0dd5de7 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -428,14 +428,17 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
             **kwargs,
         )
 
+        # the affine coefficients have one more dimension, right after the batch one
+        axis_w = self.axis if self.axis < 0 else self.axis + 1
+
         def func(inputs: list[BackendTensor]) -> BackendTensor:
-            return Concatenate.call(self, inputs)
+            return K.concatenate(inputs, axis=self.axis)
+
+        def func_w(inputs: list[BackendTensor]) -> BackendTensor:
+            return K.concatenate(inputs, axis=axis_w)
 
         self.op = func
-        if self.axis == -1:
-            self.op_w = self.op
-        else:
-            self.op_w = Concatenate(axis=self.axis + 1)
+        self.op_w = func_w
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         # splits the inputs
@@ -591,8 +594,11 @@ class DecomonDot(DecomonMerge, Dot):
         n_0 = len(input_shape_0) - 2
         n_1 = len(input_shape_1) - 2
 
-        inputs_0 = permute_dimensions(inputs_0, self.axes[0], mode=self.mode, dc_decomp=self.dc_decomp)
-        inputs_1 = permute_dimensions(inputs_1, self.axes[1], mode=self.mode, dc_decomp=self.dc_decomp)
+        axis_0 = self.axes[0] % len(input_shape_0)
+        axis_1 = self.axes[1] % len(input_shape_1)
+
+        inputs_0 = permute_dimensions(inputs_0, axis_0, mode=self.mode, dc_decomp=self.dc_decomp)
+        inputs_1 = permute_dimensions(inputs_1, axis_1, mode=self.mode, dc_decomp=self.dc_decomp)
         inputs_0 = broadcast(
             inputs_0, n_1, -1, mode=self.mode, dc_decomp=self.dc_decomp, perturbation_domain=self.perturbation_domain
         )
@@ -609,17 +615,20 @@ class DecomonDot(DecomonMerge, Dot):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+        # dot between vectors: Keras keeps the dimension
+        keepdims = n_0 == 0 and n_1 == 0
+
         if self.ibp:
-            u_c_out = K.sum(u_c, 1)
-            l_c_out = K.sum(l_c, 1)
+            u_c_out = K.sum(u_c, 1, keepdims=keepdims)
+            l_c_out = K.sum(l_c, 1, keepdims=keepdims)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            w_u_out = K.sum(w_u, 2)
-            b_u_out = K.sum(b_u, 1)
-            w_l_out = K.sum(w_l, 2)
-            b_l_out = K.sum(b_l, 1)
+            w_u_out = K.sum(w_u, 2, keepdims=keepdims)
+            b_u_out = K.sum(b_u, 1, keepdims=keepdims)
+            w_l_out = K.sum(w_l, 2, keepdims=keepdims)
+            b_l_out = K.sum(b_l, 1, keepdims=keepdims)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 3dbba57..06b6c57 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -565,10 +565,11 @@ def permute_dimensions(
     if len(input_shape) <= 2:
         # not enough dim to permute
         return inputs
+    axis = axis % len(input_shape)
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    index_w = tuple(np.insert(np.delete(index_w_np, axis + 1), axis_perm + 1, axis + 1))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From 6e87630e097a0126b73994722ec665b6aebe27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 22/48] fix: backward minimum, multiply, average of 3 inputs
 and more, and negative scale

---
 src/decomon/backward_layers/backward_merge.py |  2 +-
 src/decomon/backward_layers/utils.py          | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..6a87a1a 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -228,7 +228,7 @@ class BackwardAverage(BackwardMerge):
                 if j == 1:
                     inputs_0 = inputs_list[0]
                 else:
-                    inputs_0 = self.op(list(chain(*inputs_list[: (j - 1)])))  # merge (j-1) first inputs
+                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs
                 bounds_0, bounds_1 = backward_add(
                     inputs_0,
                     inputs_1,
diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 1b6094e..afb687b 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -380,9 +380,10 @@ def backward_minimum(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     w_u_out, b_u_out, w_l_out, b_l_out = backward_minus(w_u_out, b_u_out, w_l_out, b_l_out)
+    # minimum(x, y) = -maximum(-x, -y)
     bounds_0, bounds_1 = backward_maximum(
-        inputs_0,
-        inputs_1,
+        minus(inputs_0, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        minus(inputs_1, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
         w_u_out,
         b_u_out,
         w_l_out,
@@ -421,7 +422,7 @@ def backward_minus(
     Returns:
 
     """
-    return [-w_l_out, -b_l_out, -w_u_out, -b_u_out]
+    return [-w_u_out, b_u_out, -w_l_out, b_l_out]
 
 
 def backward_scale(
@@ -444,10 +445,7 @@ def backward_scale(
 
     """
 
-    if scale_factor >= 0:
-        output = [scale_factor * w_u_out, b_u_out, scale_factor * w_l_out, b_l_out]
-    else:
-        output = [scale_factor * w_l_out, b_l_out, scale_factor * w_u_out, b_u_out]
+    output = [scale_factor * w_u_out, b_u_out, scale_factor * w_l_out, b_l_out]
 
     return output
 
@@ -541,7 +539,7 @@ def backward_multiply(
     n = int(np.prod(u_c_0.shape[1:]))
     n_shape = [-1, n]
     # broadcast dimensions if needed
-    n_out = len(w_u_out.shape[1:])
+    n_out = len(w_u_out.shape[2:])
     for _ in range(n_out):
         n_shape += [1]
     a_u_0 = K.reshape(u_c_1, n_shape)
-- 
2.43.0


From f4fd77b264072636598287ab4d56a2bda0d58653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 23/48] fix: abs returned its input

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 06b6c57..c57a710 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -906,15 +906,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From 0cd491631786f444ba10d63f4fa0f71e720469d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 24/48] fix: bounds over a ball cut by bounds on the input

---
 src/decomon/core.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 74790f4..522933c 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -621,13 +621,13 @@ def get_lower_ball(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kw
 
 
 def get_lower_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kwargs: Any) -> Tensor:
-    if "finetune_lower" in kwargs and "upper" in kwargs or "lower" in kwargs:
+    if "finetune_lower" in kwargs and ("upper" in kwargs or "lower" in kwargs):
         alpha = kwargs["finetune_lower"]
         # assume alpha is the same shape as w, minus the batch dimension
         n_shape = len(w.shape) - 2
         z_value = K.cast(0.0, dtype=w.dtype)
 
-        if "upper" and "lower" in kwargs:
+        if "upper" in kwargs and "lower" in kwargs:
             upper = kwargs["upper"]  # flatten vector
             lower = kwargs["lower"]  # flatten vector
 
@@ -672,13 +672,13 @@ def get_lower_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
 
 
 def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kwargs: Any) -> Tensor:
-    if "finetune_upper" in kwargs and "upper" in kwargs or "lower" in kwargs:
+    if "finetune_upper" in kwargs and ("upper" in kwargs or "lower" in kwargs):
         alpha = kwargs["finetune_upper"]
         # assume alpha is the same shape as w, minus the batch dimension
         n_shape = len(w.shape) - 2
         z_value = K.cast(0.0, dtype=w.dtype)
 
-        if "upper" and "lower" in kwargs:
+        if "upper" in kwargs and "lower" in kwargs:
             upper = kwargs["upper"]  # flatten vector
             lower = kwargs["lower"]  # flatten vector
 
@@ -691,7 +691,7 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             score_box = K.sum(K.maximum(z_value, w_alpha_bar) * upper_reshaped, 1) + K.sum(
                 K.minimum(z_value, w_alpha_bar) * lower_reshaped, 1
             )
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
@@ -699,11 +699,11 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             upper = kwargs["upper"]  # flatten vector
             upper_reshaped = np.reshape(upper, [1, -1] + [1] * n_shape)
 
-            w_alpha = K.minimum(z_value, w) * alpha[None] + K.maximum(z_value, w)
-            w_alpha_bar = K.minimum(z_value, w) * (1 - alpha[None])
+            w_alpha = K.maximum(z_value, w) * alpha[None] + K.minimum(z_value, w)
+            w_alpha_bar = K.maximum(z_value, w) * (1 - alpha[None])
 
             score_box = K.sum(K.maximum(z_value, w_alpha_bar) * upper_reshaped, 1)
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
@@ -711,11 +711,11 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             lower = kwargs["lower"]  # flatten vector
             lower_reshaped = np.reshape(lower, [1, -1] + [1] * n_shape)
 
-            w_alpha = K.maximum(z_value, w) * alpha[None] + K.minimum(z_value, w)
-            w_alpha_bar = K.maximum(z_value, w) * (1 - alpha[None])
+            w_alpha = K.minimum(z_value, w) * alpha[None] + K.maximum(z_value, w)
+            w_alpha_bar = K.minimum(z_value, w) * (1 - alpha[None])
 
             score_box = K.sum(K.minimum(z_value, w_alpha_bar) * lower_reshaped, 1)
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
-- 
2.43.0


From 30dbe57745ec90c7b00178d04bf937ed3d385c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 25/48] fix: constant bounds from affine ones when merging
 inputs in affine mode

---
 src/decomon/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 522933c..69278c0 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -391,7 +391,7 @@ class InputsOutputsSpec:
             inputs_b_u = inputsformode[2::nb_tensors_by_input]
             inputs_w_l = inputsformode[3::nb_tensors_by_input]
             inputs_b_l = inputsformode[4::nb_tensors_by_input]
-            inputs_u_c, inputs_l_c = nonelike_tensor_list, nonelike_tensor_list
+            inputs_u_c, inputs_l_c = list(nonelike_tensor_list), list(nonelike_tensor_list)
         else:
             raise ValueError(f"Unknown mode {self.mode}")
 
-- 
2.43.0


From 0bc84178498c183f7046badf485ffc1f9b52e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 26/48] fix: conversion of models with several outputs

---
 src/decomon/models/backward_cloning.py | 59 ++++++++++++--------------
 src/decomon/models/convert.py          |  8 ++--
 src/decomon/models/forward_cloning.py  | 10 ++---
 src/decomon/models/utils.py            | 24 +++++++++++
 4 files changed, 59 insertions(+), 42 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 8cc6659..f949672 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -27,10 +27,11 @@ from decomon.layers.utils import softmax_to_linear as softmax_2_linear
 from decomon.models.crown import Convert2BackwardMode, Fuse, MergeWithPrevious
 from decomon.models.forward_cloning import OutputMapDict
 from decomon.models.utils import (
-    Convert2Mode,
+    convert_outputs_to_mode,
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
+    get_output_nodes,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -388,35 +389,30 @@ def crown_model(
     # print('step1', time_1-zero_time)
     # retrieve output nodes
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
     fuse_layer = None
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                # compute with crown
-                output_crown, fuse_layer = crown_(
-                    node=node,
-                    ibp=ibp,
-                    affine=affine,
-                    input_map=input_map,
-                    layer_fn=layer_fn,
-                    backward_bounds=back_bounds,
-                    backward_map=backward_map,
-                    joint=joint,
-                    fuse=fuse,
-                    perturbation_domain=perturbation_domain,
-                    output_map=crown_map,
-                    fuse_layer=fuse_layer,
-                )
-                # time_2 = time.process_time()
-                # print('step2', time_2-time_1)
-                if fuse:
-                    # import pdb; pdb.set_trace()
-                    output += to_list(set_mode_layer(input_tensors + output_crown))
-                else:
-                    output = output_crown
+    for node in get_output_nodes(model):
+        # compute with crown
+        output_crown, fuse_layer = crown_(
+            node=node,
+            ibp=ibp,
+            affine=affine,
+            input_map=input_map,
+            layer_fn=layer_fn,
+            backward_bounds=back_bounds,
+            backward_map=backward_map,
+            joint=joint,
+            fuse=fuse,
+            perturbation_domain=perturbation_domain,
+            output_map=crown_map,
+            fuse_layer=fuse_layer,
+        )
+        # time_2 = time.process_time()
+        # print('step2', time_2-time_1)
+        if fuse:
+            # import pdb; pdb.set_trace()
+            output += to_list(set_mode_layer(input_tensors + output_crown))
+        else:
+            output = output_crown
 
     return input_tensors, output, backward_map, None
 
@@ -473,12 +469,13 @@ def convert_backward(
     input_tensors, output, backward_map, toto = result
     mode_from = get_mode(ibp, affine)
     mode_to = get_mode(final_ibp, final_affine)
-    output = Convert2Mode(
+    output = convert_outputs_to_mode(
+        output,
         mode_from=mode_from,
         mode_to=mode_to,
         perturbation_domain=perturbation_domain,
         input_dim=input_dim,
-    )(output)
+    )
     if mode_to != mode_from and mode_from == ForwardMode.IBP:
         f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
         output[0] = f_input([input_tensors[1], input_tensors[0]])
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 9886930..0d783c5 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -21,10 +21,10 @@ from decomon.models.forward_cloning import (
 )
 from decomon.models.models import DecomonModel
 from decomon.models.utils import (
-    Convert2Mode,
     ConvertMethod,
     FeedDirection,
     check_model2convert_inputs,
+    convert_outputs_to_mode,
     ensure_functional_model,
     get_direction,
     get_ibp_affine_from_method,
@@ -171,9 +171,9 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
-        output = Convert2Mode(
-            mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
-        )(output)
+        output = convert_outputs_to_mode(
+            output, mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
+        )
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..fa0c81a 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -22,6 +22,7 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
+    get_output_nodes,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
 )
@@ -217,12 +218,7 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                output += output_map[id(node)]
+    for node in get_output_nodes(model):
+        output += output_map[id(node)]
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 8452115..7a5e134 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -17,6 +17,7 @@ from keras.layers import (
 )
 from keras.src import Functional
 from keras.src.ops.node import Node
+from keras.src.utils.python_utils import to_list
 
 from decomon.core import (
     BallDomain,
@@ -266,6 +267,12 @@ def get_depth_dict(model: Model) -> dict[int, list[Node]]:
     return dico_nodes
 
 
+def get_output_nodes(model: Model) -> list[Node]:
+    """Nodes computing the outputs of the model, in the order of the outputs."""
+    histories = [tensor._keras_history for tensor in to_list(model.output)]
+    return [history.operation._inbound_nodes[history.node_index] for history in histories]
+
+
 def get_inner_layers(model: Model) -> int:
     count = 0
     for layer in model.layers:
@@ -349,6 +356,23 @@ class Convert2Mode(Layer):
         return config
 
 
+def convert_outputs_to_mode(
+    outputs: list[keras.KerasTensor],
+    mode_from: Union[str, ForwardMode],
+    mode_to: Union[str, ForwardMode],
+    perturbation_domain: PerturbationDomain,
+    input_dim: int = -1,
+) -> list[keras.KerasTensor]:
+    """Apply Convert2Mode to each output of a model."""
+    inputs_outputs_spec = InputsOutputsSpec(mode=mode_from, perturbation_domain=perturbation_domain)
+    converted_outputs: list[keras.KerasTensor] = []
+    for output in inputs_outputs_spec.split_inputsformode_to_merge(outputs):
+        converted_outputs += Convert2Mode(
+            mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
+        )(output)
+    return converted_outputs
+
+
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         return model
-- 
2.43.0


From 145481fe5369e463142b0d20c9e5e8ceb294ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:30 +0000
Subject: [PATCH 27/48] fix: final softmax removed from the model given by the
 user

---
 src/decomon/layers/utils.py   | 32 ++++++++++++++++++++------------
 src/decomon/models/convert.py |  4 ++++
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index c57a710..963764c 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -18,6 +18,7 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
+from decomon.keras_utils import share_weights_and_build
 from decomon.types import BackendTensor, Tensor
 from decomon.utils import add, get_linear_softplus_hull, maximum, minimum, minus, relu_
 
@@ -412,18 +413,25 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
         model without the softmax
     """
     layer = model.layers[-1]
-    # check that layer is not an instance of the object Softmax
-    if isinstance(layer, keras.layers.Softmax):
-        model_normalize = keras.models.Model(model.get_input_at(0), keras.layers.Activation("linear")(layer.input))
-
-        return model_normalize, True
-
-    if hasattr(layer, "activation"):
-        if not layer.get_config()["activation"] == "softmax":
-            return model, False
-        layer.get_config()["activation"] = "linear"
-        layer.activation = keras.activations.get("linear")
-        return model, True
+    is_softmax = isinstance(layer, keras.layers.Softmax) or (
+        hasattr(layer, "activation") and layer.get_config()["activation"] == "softmax"
+    )
+    if is_softmax:
+        # use another layer in another model: the given ones must still compute softmax afterwards
+        if isinstance(layer, (keras.layers.Softmax, keras.layers.Activation)):
+            linear_layer: Layer = keras.layers.Activation("linear")
+        else:
+            config = layer.get_config()
+            config["activation"] = "linear"
+            linear_layer = layer.__class__.from_config(config)
+            share_weights_and_build(layer, linear_layer, [w.name for w in layer.weights])
+        outputs = []
+        for output in model.outputs:
+            history = output._keras_history
+            if history.operation is layer:
+                output = linear_layer(*layer._inbound_nodes[history.node_index].input_tensors)
+            outputs.append(output)
+        return keras.Model(model.inputs, outputs), True
 
     return model, False
 
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 0d783c5..ba60379 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -11,6 +11,7 @@ from keras.src.utils.python_utils import to_list
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
 from decomon.layers.convert import to_decomon
+from decomon.layers.utils import softmax_to_linear as softmax_2_linear
 from decomon.models.backward_cloning import convert_backward
 from decomon.models.crown import MergeForwardWithBackBounds
 from decomon.models.forward_cloning import (
@@ -123,6 +124,9 @@ def convert(
 
     # prepare the Keras Model: split non-linear activation functions into separate Activation layers
     model = preprocess_keras_model(model)
+    if softmax_to_linear:
+        # once for all: forward and backward conversions must work on the same model
+        model, _ = softmax_2_linear(model)
 
     layer_map: Union[LayerMapDict, dict[int, BackwardLayer]]
 
-- 
2.43.0


From 7c4556c098ff06278cb499957c2fbfa1753e2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 28/48] fix: layers of the given model renamed by its
 conversion

---
 src/decomon/models/convert.py | 48 ++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index ba60379..80e20f8 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -239,27 +239,33 @@ def clone(
         affine=affine,
     )
 
-    _, output, _, _ = convert(
-        model,
-        layer_fn=layer_fn,
-        slope=slope,
-        input_tensors=input_tensors,
-        back_bounds=back_bounds,
-        method=method,
-        ibp=ibp,
-        affine=affine,
-        input_dim=-1,
-        perturbation_domain=perturbation_domain,
-        finetune=finetune,
-        shared=shared,
-        softmax_to_linear=True,
-        layer_map={},
-        forward_map={},
-        finetune_forward=finetune_forward,
-        finetune_backward=finetune_backward,
-        final_ibp=final_ibp,
-        final_affine=final_affine,
-    )
+    # the conversion reuses the layers of the model and gives them unique names: do not let it rename them for good
+    layers_names = [(layer, layer.name) for layer in model._flatten_layers()]
+    try:
+        _, output, _, _ = convert(
+            model,
+            layer_fn=layer_fn,
+            slope=slope,
+            input_tensors=input_tensors,
+            back_bounds=back_bounds,
+            method=method,
+            ibp=ibp,
+            affine=affine,
+            input_dim=-1,
+            perturbation_domain=perturbation_domain,
+            finetune=finetune,
+            shared=shared,
+            softmax_to_linear=True,
+            layer_map={},
+            forward_map={},
+            finetune_forward=finetune_forward,
+            finetune_backward=finetune_backward,
+            final_ibp=final_ibp,
+            final_affine=final_affine,
+        )
+    finally:
+        for layer, name in layers_names:
+            layer.name = name
 
     back_bounds_from_inputs = [elem for elem in back_bounds if isinstance(elem._keras_history.operation, InputLayer)]
 
-- 
2.43.0


From ca9e6aab509fc77bf298879ca11291b05cb70009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 29/48] fix: batch normalization weights not shared with the
 Keras layer

---
 src/decomon/layers/decomon_layers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..1d260bd 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -809,8 +809,16 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
-        super().build(input_shape)
+        if not self.shared:
+            super().build(input_shape)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
+        self.built = True
+
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        for name in self.keras_weights_names:
+            setattr(self, name, getattr(layer, name))
 
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
-- 
2.43.0


From c85917bd32279aca5ed6f0046b651a879f2b483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:52 +0000
Subject: [PATCH 30/48] fix: finetuned activation on images in backward mode

---
 src/decomon/backward_layers/backward_layers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index eab0631..711b29e 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -375,12 +375,19 @@ class BackwardActivation(BackwardLayer):
         # infer the output dimension
         if self.activation_name != "linear":
             if self.finetune:
+                # the alphas are flat: give them the shape of the layer input
+                shape = tuple(inputs[-1].shape[1:])
+                finetune_param: Any
+                if isinstance(self.finetune_param, list):
+                    finetune_param = [K.reshape(elem, tuple(elem.shape[:-1]) + shape) for elem in self.finetune_param]
+                else:
+                    finetune_param = K.reshape(self.finetune_param, tuple(self.finetune_param.shape[:-1]) + shape)
                 w_u_out, b_u_out, w_l_out, b_l_out = self.activation(
                     inputs,
                     perturbation_domain=self.perturbation_domain,
                     slope=self.slope,
                     mode=self.mode,
-                    finetune=self.finetune_param,
+                    finetune=finetune_param,
                     finetune_grid=self.grid_finetune,
                 )
             else:
-- 
2.43.0


From e3617059ef0631952540a0913f50e6ec14dbbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 31/48] fix: name of the layer replacing a softmax could be
 taken

---
 src/decomon/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 963764c..2f67e20 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -419,10 +419,11 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
     if is_softmax:
         # use another layer in another model: the given ones must still compute softmax afterwards
         if isinstance(layer, (keras.layers.Softmax, keras.layers.Activation)):
-            linear_layer: Layer = keras.layers.Activation("linear")
+            linear_layer: Layer = keras.layers.Activation("linear", name=f"{layer.name}_linear")
         else:
             config = layer.get_config()
             config["activation"] = "linear"
+            config["name"] = f"{layer.name}_linear"
             linear_layer = layer.__class__.from_config(config)
             share_weights_and_build(layer, linear_layer, [w.name for w in layer.weights])
         outputs = []
-- 
2.43.0


From 5b0a05ab4e8f86d45fea1d138aef7f792ef9be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 32/48] fix: reset and freezing of the finetuning parameters

---
 .../backward_layers/backward_layers.py        | 36 ++++++++++---------
 src/decomon/layers/decomon_layers.py          | 32 +++++++----------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 711b29e..a66098b 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -253,8 +253,7 @@ class BackwardActivation(BackwardLayer):
         self.slope = Slope(slope)
         self.finetune = finetune
         self.finetune_param: list[keras.Variable] = []
-        if self.finetune:
-            self.frozen_alpha = False
+        self.frozen_alpha = False
         self.grid_finetune: list[keras.Variable] = []
         self.frozen_grid = False
 
@@ -408,24 +407,27 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
+    @property
+    def alphas(self) -> list[keras.Variable]:
+        """Finetuning parameters, created by build()."""
+        return [getattr(self, name) for name in ("alpha_b_u", "alpha_b_l") if hasattr(self, name)]
+
+    def reset_finetuning(self) -> None:
+        for alpha in self.alphas:
+            initial_value = np.ones(tuple(alpha.shape))
+            if isinstance(self.perturbation_domain, GridDomain):
+                initial_value[1:] = 0
+            alpha.assign(initial_value)
+
     def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if len(self.grid_finetune):
-                    self._trainable_weights = self._trainable_weights[:2]
-                else:
-                    self._trainable_weights = []
-                self.frozen_alpha = True
+        for alpha in self.alphas:
+            alpha.trainable = False
+        self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.alpha_b_u, self.alpha_b_l]
-                    else:
-                        self._trainable_weights += [self.alpha_b_l]
-            self.frozen_alpha = False
+        for alpha in self.alphas:
+            alpha.trainable = True
+        self.frozen_alpha = False
 
     def freeze_grid(self) -> None:
         if len(self.grid_finetune) and not self.frozen_grid:
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 1d260bd..35bae29 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -621,30 +621,24 @@ class DecomonActivation(DecomonLayer, Activation):
             )
             return output
 
+    @property
+    def alphas(self) -> list[keras.Variable]:
+        """Finetuning parameters, created by build()."""
+        return [getattr(self, name) for name in ("beta_u_f", "beta_l_f") if hasattr(self, name)]
+
     def reset_finetuning(self) -> None:
-        if self.finetune and self.mode != ForwardMode.IBP:
-            if self.activation_name != "linear":
-                if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
-                else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+        for alpha in self.alphas:
+            alpha.assign(K.ones_like(alpha))
 
     def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                self._trainable_weights = []
-            self.frozen_alpha = True
+        for alpha in self.alphas:
+            alpha.trainable = False
+        self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.beta_u_f, self.beta_l_f]
-                    else:
-                        self._trainable_weights += [self.beta_l_f]
-            self.frozen_alpha = False
+        for alpha in self.alphas:
+            alpha.trainable = True
+        self.frozen_alpha = False
 
 
 class DecomonFlatten(DecomonLayer, Flatten):
-- 
2.43.0


From 66961134389bcfc43203d01be84b794afce77532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 33/48] fix: losses with a ball domain

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..fa529f6 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From eab8d1cb754f1961a290fbc0d67eb7c7ec5c0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 34/48] fix: softmax always applied in the adversarial loss of
 hybrid models

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fa529f6..925f9bd 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From 98f1ab3b7c80256f7bc17642527860e8d5637e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 35/48] fix: batched identity and diagonal in graph mode

---
 src/decomon/keras_utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index 681f359..778fc7c 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -2,7 +2,6 @@ from typing import Any
 
 import keras
 import keras.ops as K
-import numpy as np
 from keras.layers import Layer
 
 from decomon.types import BackendTensor, Tensor
@@ -22,10 +21,8 @@ class BatchedIdentityLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        input_shape = x.shape
-        identity_tensor = K.identity(input_shape[-1], dtype=x.dtype)
-        n_repeat = int(np.prod(input_shape[:-1]))
-        return K.reshape(K.repeat(identity_tensor[None], n_repeat, axis=0), tuple(input_shape) + (-1,))
+        identity_tensor = K.identity(x.shape[-1], dtype=x.dtype)
+        return K.zeros_like(x)[..., None] + identity_tensor
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
@@ -50,7 +47,7 @@ class BatchedDiagLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        return K.concatenate([K.diag(K.ravel(w_part))[None] for w_part in K.split(x, len(x), axis=0)], axis=0)
+        return x[..., None] * K.identity(x.shape[-1], dtype=x.dtype)
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
-- 
2.43.0


From 6f17def24576da459add05a932236921d2dec8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 36/48] fix: layers rebuilt from their configuration

---
 src/decomon/core.py                  | 4 ++++
 src/decomon/layers/core.py           | 9 +++++++++
 src/decomon/layers/decomon_layers.py | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 69278c0..cb1da13 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -45,6 +45,10 @@ class PerturbationDomain(ABC):
             "opt_option": self.opt_option,
         }
 
+    @classmethod
+    def from_config(cls, config: dict[str, Any]) -> "PerturbationDomain":
+        return cls(**config)
+
     def get_x_input_shape_wo_batchsize(self, original_input_dim: int) -> tuple[int, ...]:
         n_comp_x = self.get_nb_x_components()
         if n_comp_x == 1:
diff --git a/src/decomon/layers/core.py b/src/decomon/layers/core.py
index 86ef87c..beb590c 100644
--- a/src/decomon/layers/core.py
+++ b/src/decomon/layers/core.py
@@ -3,6 +3,7 @@ from typing import Any, Optional, Union
 
 import keras
 from keras.layers import Layer
+from keras.utils import deserialize_keras_object
 
 from decomon.core import (
     BoxDomain,
@@ -86,6 +87,14 @@ class DecomonLayer(ABC, Layer):
         )
         return config
 
+    @classmethod
+    def from_config(cls, config: dict[str, Any]) -> Any:
+        config = dict(config)
+        if isinstance(config.get("perturbation_domain"), dict):
+            # config coming from the serialization of an object containing the layer
+            config["perturbation_domain"] = deserialize_keras_object(config["perturbation_domain"])
+        return super().from_config(config)
+
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
         """
         Args:
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 35bae29..c518828 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -570,6 +570,11 @@ class DecomonActivation(DecomonLayer, Activation):
         self.activation = activations.get(activation)
         self.activation_name = activation
 
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"slope": self.slope})
+        return config
+
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
         if self.finetune and self.mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
             shape = input_shape[-1][1:]
-- 
2.43.0


From 843854e877a52a7a1d4bdf68b1c5214f7cbdbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 37/48] fix: input_dim missing from the configuration of
 Convert2Mode

---
 src/decomon/models/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 7a5e134..24b629f 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -351,7 +351,12 @@ class Convert2Mode(Layer):
     def get_config(self) -> dict[str, Any]:
         config = super().get_config()
         config.update(
-            {"mode_from": self.mode_from, "mode_to": self.mode_to, "perturbation_domain": self.perturbation_domain}
+            {
+                "mode_from": self.mode_from,
+                "mode_to": self.mode_to,
+                "perturbation_domain": self.perturbation_domain,
+                "input_dim": self.input_dim,
+            }
         )
         return config
 
-- 
2.43.0


From 85d753c61d81d9a497b1b30a02b2cab08e38105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 38/48] fix: unpacking of affine bounds in UpperScore

---
 src/decomon/metrics/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 45b600d..12a5585 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -338,7 +338,7 @@ class UpperScore(MetricLayer):
             upper_affine = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
             upper_score = K.minimum(upper_ibp, upper_affine)
         elif not self.ibp and self.affine:
-            _, _, w_u_f, b_u_f = inputs[:6]
+            _, _, w_u_f, b_u_f, _, _ = inputs[:6]
             upper_score = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
         elif self.ibp and not self.affine:
             _, _, u_c, l_c = inputs[:4]
-- 
2.43.0


From 9fc1671cc86f227c24c32a42dcb91007a8cc196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 39/48] fix: perturbation domain of the crossentropy models

---
 src/decomon/metrics/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 925f9bd..a7f2ddf 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -603,7 +603,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -627,7 +629,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From 5adf2a455994cae66b07aeec4209b0e3690154b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 40/48] fix: arguments of K.split in split()

---
 src/decomon/layers/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 2f67e20..c540fc5 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -699,19 +699,19 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
         if axis != -1:
             axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis)
+        w_l_list = K.split(w_l, n, axis=axis)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
-- 
2.43.0


From dd96a8247d1c7d1db42dd85b9667525d7006e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 41/48] fix: lists of tensors updated by sort()

---
 src/decomon/layers/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index c540fc5..1ea15db 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -779,7 +779,7 @@ def sort(
     empty_tensor_list = [empty_tensor] * n
 
     # what about splitting elements
-    op_split = lambda x: K.split(x, n, axis=axis)
+    op_split = lambda x: list(K.split(x, n, axis=axis))
     if ibp:
         u_c_list = op_split(u_c)
         l_c_list = op_split(l_c)
@@ -787,9 +787,9 @@ def sort(
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_u_list = list(K.split(w_u, n, axis=axis + 1))
         b_u_list = op_split(b_u)
-        w_l_list = K.split(w_l, n, axis=axis + 1)
+        w_l_list = list(K.split(w_l, n, axis=axis + 1))
         b_l_list = op_split(b_l)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
-- 
2.43.0


From e4e6a7ec7f9af6b092596ea60fb8a920b277cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 42/48] fix: negative axes in the operators on tensors

---
 src/decomon/layers/utils.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 1ea15db..87dd022 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -175,8 +175,8 @@ def sum(
         u_c_out, l_c_out = empty_tensor, empty_tensor
 
     if affine:
-        if axis == -1:
-            axis_w = -1
+        if axis < 0:
+            axis_w = axis
         else:
             axis_w = axis + 1
         w_u_out = K.sum(w_u, axis=axis_w)
@@ -312,7 +312,7 @@ def max_(
         b_u_tmp = b_u_list[0] + 0 * (b_u_list[0])
         b_l_tmp = b_l_list[0] + 0 * (b_l_list[0])
 
-        if axis == -1:
+        if axis < 0:
             w_u_list = K.split(w_u, max_dim, axis)
             w_l_list = K.split(w_l, max_dim, axis)
         else:
@@ -385,7 +385,7 @@ def max_(
     if mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
         b_u_out = K.squeeze(b_u_out, axis)
         b_l_out = K.squeeze(b_l_out, axis)
-        if axis == -1:
+        if axis < 0:
             w_u_out = K.squeeze(w_u_out, axis)
             w_l_out = K.squeeze(w_l_out, axis)
         else:
@@ -640,10 +640,10 @@ def broadcast(
             u_c = K.expand_dims(u_c, axis)
             l_c = K.expand_dims(l_c, axis)
 
-    if axis != -1:
+    if axis >= 0:
         axis_w = axis + 1
     else:
-        axis_w = -1
+        axis_w = axis
 
     if affine:
         for _ in range(n):
@@ -683,11 +683,9 @@ def split(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    if axis < 0:
+        axis = len(input_shape) + axis
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -768,11 +766,9 @@ def sort(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    if axis < 0:
+        axis = len(input_shape) + axis
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -1024,7 +1020,7 @@ def expand_dims(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
+    if axis < 0:
         axis_w = axis
     else:
         axis_w = axis + 1
-- 
2.43.0


From f93a2565015aaef927e2e68310ce114476a60cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 43/48] fix: perturbation domain of the sum in
 categorical_cross_entropy

---
 src/decomon/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/utils.py b/src/decomon/metrics/utils.py
index 3cc9a7e..f714ee1 100644
--- a/src/decomon/metrics/utils.py
+++ b/src/decomon/metrics/utils.py
@@ -19,7 +19,7 @@ def categorical_cross_entropy(
         perturbation_domain = BoxDomain()
     outputs = exp(inputs, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp)
     # step 2: sum
-    outputs = sum(outputs, axis=-1, mode=mode)
+    outputs = sum(outputs, axis=-1, mode=mode, perturbation_domain=perturbation_domain)
     # step 3: log
     outputs = log(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     outputs = expand_dims(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain, axis=-1)
-- 
2.43.0


From eceaac21ab095195c15f2a01a21c3f74662c735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 44/48] fix: hull of 1/x in frac_pos_hull

---
 src/decomon/layers/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 87dd022..370b643 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -949,11 +949,14 @@ def frac_pos_hull(
 
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
 
-    l_c = K.maximum(l_c, K.cast(1.0, dtype=l_c.dtype))
+    l_c = K.maximum(l_c, K.cast(epsilon(), dtype=l_c.dtype))
+    u_c = K.maximum(l_c, u_c)
     z = (u_c + l_c) / 2.0
-    w_l = -K.cast(1.0, dtype=z.dtype) / K.power(z)
+    w_l = -K.cast(1.0, dtype=z.dtype) / z**2
     b_l = K.cast(2.0, dtype=z.dtype) / z
-    w_u = (K.cast(1.0, dtype=u_c.dtype) / u_c - K.cast(1.0, dtype=l_c.dtype) / l_c) / (u_c - l_c)
+    w_u = (K.cast(1.0, dtype=u_c.dtype) / u_c - K.cast(1.0, dtype=l_c.dtype) / l_c) / K.maximum(
+        u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype)
+    )
     b_u = K.cast(1.0, dtype=u_c.dtype) / u_c - w_u * u_c
 
     return [w_u, b_u, w_l, b_l]
-- 
2.43.0


From a80e42eb1964beb7b8d2a08fbc8e4de1c5ade0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 45/48] fix: radius of the domain kept by get_range_noise

---
 src/decomon/wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index a4b569a..f00b381 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -695,6 +695,9 @@ def get_range_noise(
         decomon_model = model
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
+        else:
+            # the domain of the model is kept
+            eps, p = decomon_model.perturbation_domain.eps, decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
-- 
2.43.0


From 91e81f626c3ed27f284a520b79f1dc379d7dbbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 46/48] fix: refuse Dot layers with normalize=True, whose
 normalization was ignored

---
 src/decomon/layers/decomon_merge_layers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 0dd5de7..57c1bad 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -577,6 +577,8 @@ class DecomonDot(DecomonMerge, Dot):
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         if self.dc_decomp:
             raise NotImplementedError()
+        if self.normalize:
+            raise NotImplementedError("Not yet implemented for normalize=True")
 
         # splits the inputs
         inputs_list = self.inputs_outputs_spec.split_inputsformode_to_merge(inputs)
-- 
2.43.0


From ce82d96cc80f939a46b3574399ed6d652c65ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 47/48] fix: Flatten layers with data_format channels_first

---
 src/decomon/backward_layers/backward_layers.py | 13 ++++++++++++-
 src/decomon/layers/decomon_layers.py           |  5 +++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index a66098b..d4f3236 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -462,7 +462,18 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+
+        if self.layer.data_format == "channels_first" and len(inputs[-1].shape) > 2:
+            # Flatten puts the channels at the end: permute the (flattened) outputs of the identity
+            shape = list(inputs[-1].shape[1:])
+            n_dim = w_u_out.shape[1]
+            dims = [0, 1] + [i + 2 for i in range(1, len(shape))] + [2]
+
+            w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
+            w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, [-1, n_dim] + shape), dims), (-1, n_dim, n_dim))
+
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index c518828..2e4572b 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -744,8 +744,9 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
-            w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
-            w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
+            # same order of the elements as for the biases (that depends on data_format)
+            w_u_out = K.reshape(op(K.reshape(w_u, (-1,) + tuple(w_u.shape[2:]))), (-1, input_dim, output_shape))
+            w_l_out = K.reshape(op(K.reshape(w_l, (-1,) + tuple(w_l.shape[2:]))), (-1, input_dim, output_shape))
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 5d257fbc5e31c976bb5134af0c5fd874db1afb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 48/48] fix: gradient of the L2 norm of a null slope

---
 src/decomon/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index cb1da13..d92d25d 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -543,7 +543,10 @@ def get_lq_norm(x: Tensor, p: float, axis: int = -1) -> Tensor:
     if p == 1:
         x_q = K.max(K.abs(x), axis)
     elif p == 2:
-        x_q = K.sqrt(K.sum(K.power(x, p), axis))
+        square = K.sum(K.power(x, p), axis)
+        # the square root is not differentiable at 0: gradient of the norm of a null slope set to 0 rather than nan
+        is_null = K.equal(square, K.zeros_like(square))
+        x_q = K.where(is_null, K.zeros_like(square), K.sqrt(K.where(is_null, K.ones_like(square), square)))
     else:
         raise NotImplementedError("p must be equal to 1 or 2")
 
-- 
2.43.0

