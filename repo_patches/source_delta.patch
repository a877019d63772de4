From 2d9d01b10a84759d20c84ffb88c62e43dbfa96aa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 01/16] fix: restore layer attributes when a wrapped call
 raises

---
 groco/utils/misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..0e318fe 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -6,9 +6,11 @@ def backup_and_restore(attribute_names):
     def decorator(function):
         def wrapper(self, inputs):
             backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
+            try:
+                result = function(self, inputs)
+            finally:
+                for name in attribute_names:
+                    setattr(self, name, backup[name])
             return result
 
         return wrapper
-- 
2.43.0


From 9f0d8172091841298265cd72ec45a3d46478b131 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 02/16] fix: report the padding error instead of an
 AttributeError

---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..c6b49fb 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -178,6 +178,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From bfb3b1d13637b32c9e8867c1a51ece61b4d253ed Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 03/16] fix: strip the equivariant suffix from padding options
 in any case

---
 groco/layers/padding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c6b49fb..e931637 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -41,6 +41,7 @@ class EquivariantPadding(Layer):
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
+        padding = padding.lower()
         self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
 
         self.allow_non_equivariance = allow_non_equivariance
-- 
2.43.0


From e3c1813a55cf6b9d2bac88bede2787b5348ea7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 04/16] fix: accept lists for kernel_size and strides in
 EquivariantPadding

---
 groco/layers/padding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index e931637..714610a 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -48,13 +48,13 @@ class EquivariantPadding(Layer):
         self.dimensions = dimensions
         self.strides = ops.cast(
             strides
-            if isinstance(strides, tuple)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
         self.kernel_sizes = ops.cast(
             kernel_size
-            if isinstance(kernel_size, tuple)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
-- 
2.43.0


From 660d506bfb22e81493f622d8f2ed49fa4d9b2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 05/16] fix: pad group pooling for the default strides, which
 equal the pool size

---
 groco/layers/pooling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..801122e 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -37,6 +37,8 @@ class GroupPooling(Layer):
         super().__init__()
 
         self.dimensions = dimensions
+        if kwargs.get("strides") is None:
+            kwargs["strides"] = pool_size  # the Keras default
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=pool_size,
-- 
2.43.0


From 14bdc609840634f046f9107e7aff20ea6ca71632 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 06/16] fix: account for dilation_rate in the equivariant
 padding

---
 groco/layers/padding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 714610a..876e9c4 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -27,6 +27,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        dilation_rate: int or tuple of int, the dilation rate of the convolution.
     """
 
     def __init__(
@@ -38,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -58,6 +60,8 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        self.dilation_rate = dilation_rate
+        self.kernel_sizes = (self.kernel_sizes - 1) * ops.cast(dilation_rate, "int32") + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
-- 
2.43.0


From d07b5d78deb73cea16e6e0d93ce08a5332143345 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 07/16] fix: use one data_format throughout each group layer

---
 groco/layers/group_transforms.py | 6 ++++--
 groco/layers/padding.py          | 5 +++--
 groco/layers/pooling.py          | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..60de2e9 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,5 @@
 from keras import ops
+from keras.config import image_data_format
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +31,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -54,11 +55,12 @@ class GroupTransforms:
             kernel_size=kernel_size,
             dimensions=dimensions,
             transpose=transpose,
+            data_format=data_format,
             **kwargs,
         )
         self.built_in_padding_option = self.equivariant_padding.built_in_padding_option
 
-        self.data_format = data_format
+        self.data_format = data_format or image_data_format()
         # axes refer to input
         self.channels_axis = 1 if self.data_format == "channels_first" else self.dimensions + 1
         self.group_axis = self.dimensions + 1 + (self.data_format == "channels_first")
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 876e9c4..4e70067 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,4 +1,5 @@
 from keras import ops
+from keras.config import image_data_format
 from keras.layers import Layer
 
 
@@ -37,7 +38,7 @@ class EquivariantPadding(Layer):
         strides=1,
         padding="valid_equiv",
         allow_non_equivariance=False,
-        data_format="channels_last",
+        data_format=None,
         transpose=False,
         dilation_rate=1,
         **kwargs,
@@ -62,7 +63,7 @@ class EquivariantPadding(Layer):
         )
         self.dilation_rate = dilation_rate
         self.kernel_sizes = (self.kernel_sizes - 1) * ops.cast(dilation_rate, "int32") + 1
-        self.data_format = data_format
+        self.data_format = data_format or image_data_format()
         self.transpose = transpose
         # set during build
         self.equivariant_padding = None
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 801122e..79b4858 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -93,7 +93,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From 04b4a167c2f5931636173f0681a2bdc31baf1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 08/16] fix: raise a clear error for global group pooling of
 non group signals

---
 groco/layers/pooling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 79b4858..57ecb3c 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -124,6 +124,8 @@ class GlobalGroupPooling(Layer):
                 merged_axis=self.group_axis,
                 target_axis=self.channels_axis,
             )
+        else:
+            raise ValueError(f"Expected a signal on a group, got input shape {input_shape}.")
         self.pooling.build(reshaped_input)
 
     def get_config(self):
-- 
2.43.0


From 369ab7a88f76f0e178b01a937d3ca5e6d9b3ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:26:35 +0000
Subject: [PATCH 09/16] fix: make get_config of the group layers serializable
 and reconstructable

---
 groco/layers/group_transforms.py |  5 +++--
 groco/layers/padding.py          | 13 +++++++++----
 groco/layers/pooling.py          | 11 +++++++++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 60de2e9..6f33340 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -224,8 +224,9 @@ class GroupTransforms:
         )
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
+        config = {"group": self.group.name, "subgroup": self.subgroup.name}
+        padding_config = self.equivariant_padding.get_config()
+        config.update({k: padding_config[k] for k in ("padding", "allow_non_equivariance")})
         return config
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 4e70067..057fd11 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -47,6 +47,13 @@ class EquivariantPadding(Layer):
         padding = padding.lower()
         self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
 
+        self.config = {
+            "kernel_size": kernel_size,
+            "strides": strides,
+            "data_format": data_format,
+            "transpose": transpose,
+            "dilation_rate": dilation_rate,
+        }
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
         self.strides = ops.cast(
@@ -61,7 +68,6 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
-        self.dilation_rate = dilation_rate
         self.kernel_sizes = (self.kernel_sizes - 1) * ops.cast(dilation_rate, "int32") + 1
         self.data_format = data_format or image_data_format()
         self.transpose = transpose
@@ -140,9 +146,8 @@ class EquivariantPadding(Layer):
 
     def get_config(self):
         return {
-            "kernel_size": self.kernel_size,
-            "strides": self.strides,
-            "padding": self.padding,
+            **self.config,
+            "padding": self.padding_option.lower(),
             "allow_non_equivariance": self.allow_non_equivariance,
             "dimensions": self.dimensions,
         }
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 57ecb3c..9accab9 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -19,6 +19,11 @@ from groco import utils
 from groco.layers.group_transforms import GroupTransforms
 
 
+def base_layer_kwargs(kwargs):
+    """Select the arguments of the Keras base layer."""
+    return {name: kwargs[name] for name in ("name", "trainable", "dtype") if name in kwargs}
+
+
 class GroupPooling(Layer):
     """
     Base group pooling layer. Only meant to be subclassed.
@@ -34,7 +39,7 @@ class GroupPooling(Layer):
         pool_size=2,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(**base_layer_kwargs(kwargs))
 
         self.dimensions = dimensions
         if kwargs.get("strides") is None:
@@ -73,6 +78,7 @@ class GroupPooling(Layer):
     def get_config(self):
         config = self.pooling.get_config()
         config.update(self.group_transforms.get_config())
+        config.update(super().get_config())
         return config
 
 
@@ -82,7 +88,7 @@ class GlobalGroupPooling(Layer):
     """
 
     def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+        super().__init__(**base_layer_kwargs(kwargs))
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -130,6 +136,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         return config
 
 
-- 
2.43.0


From de797b044bfc29fd6b0130f23e4e7a2111f695b7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 10/16] fix: compute_output_shape for the given input shape,
 padding and subgroup

---
 groco/layers/conv2d.py           |  2 +-
 groco/layers/conv2d_transpose.py |  2 +-
 groco/layers/conv3d.py           |  2 +-
 groco/layers/conv3d_transpose.py |  2 +-
 groco/layers/group_transforms.py | 13 ++++++++++++-
 groco/layers/padding.py          | 10 ++++++++++
 6 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..b19fc7f 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,7 +81,7 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.compute_merged_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..f90f85c 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.compute_merged_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..990534c 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,7 +81,7 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.compute_merged_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..f2f2cdc 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.compute_merged_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 6f33340..4ecfab0 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -216,11 +216,22 @@ class GroupTransforms:
 
         return indices
 
+    def compute_merged_shape(self, input_shape):
+        """Compute the shape resulting from `merge_group_axis_and_pad`."""
+        if len(input_shape) == self.dimensions + 3:
+            input_shape = utils.merge_shapes(
+                input_shape,
+                merged_axis=self.group_axis,
+                target_axis=1 if self.data_format == "channels_first" else -1,
+            )
+        return self.equivariant_padding.compute_output_shape(input_shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
         output_shape = list(output_shape)
+        order = len(self.group.subgroup[self.acting_group])
         return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
+            output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :]
         )
 
     def get_config(self):
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 057fd11..28733b2 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -106,6 +106,16 @@ class EquivariantPadding(Layer):
 
         self.equivariant_padding = self.split_padding(extra_padding)
 
+    def compute_output_shape(self, input_shape):
+        layer = self
+        if not self.built:
+            layer = EquivariantPadding(**self.get_config())
+            layer.build(input_shape)
+        if not layer.needs_padding:
+            return tuple(input_shape)
+        paddings = [int(p) for p in ops.sum(layer.equivariant_padding, axis=1)]
+        return tuple(s if p == 0 else s + p for s, p in zip(input_shape, paddings))
+
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
         extra_padding = self.compute_extra_padding(spatial_shape, built_in_padding)
-- 
2.43.0


From 41b3a76fe6e1722790eaf1881cc97d415de96efc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 11/16] fix: pad the opposite side of 'same' in transposed
 convolutions

---
 groco/layers/padding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 28733b2..98ad76c 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -149,6 +149,8 @@ class EquivariantPadding(Layer):
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
+        if self.transpose:  # here 'same' puts the larger half before
+            pads_before, pads_after = pads_after, pads_before
 
         return ops.concatenate(
             [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-- 
2.43.0


From 97875e32705915f84e6dab637a570f03145eb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 12/16] fix: reject signals whose group axis is missing or of
 another size

---
 groco/layers/conv2d.py           | 5 ++++-
 groco/layers/conv2d_transpose.py | 5 ++++-
 groco/layers/conv3d.py           | 5 ++++-
 groco/layers/conv3d_transpose.py | 5 ++++-
 groco/layers/pooling.py          | 7 +++++++
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index b19fc7f..544504f 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -73,7 +73,10 @@ class GroupConv2D(Conv2D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index f90f85c..3f336ea 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -71,7 +71,10 @@ class GroupConv2DTranspose(Conv2DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 990534c..ffaa1eb 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -73,7 +73,10 @@ class GroupConv3D(Conv3D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index f2f2cdc..a87c303 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -77,7 +77,10 @@ class GroupConv3DTranspose(Conv3DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 9accab9..3f7f323 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -9,6 +9,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -71,7 +72,13 @@ class GroupPooling(Layer):
         return self.group_transforms.restore_group_axis(outputs)
 
     def build(self, input_shape):
+        if len(input_shape) != self.dimensions + 3:
+            raise ValueError(f"Expected a signal on a group, got input shape {input_shape}.")
         self.group_transforms.build(input_shape)
+        group_axis = self.group_transforms.group_axis
+        self.input_spec = InputSpec(
+            ndim=len(input_shape), axes={group_axis: input_shape[group_axis]}
+        )
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
-- 
2.43.0


From 9dd951fe8309df70ccdb28cd6327a0ad0340fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 13/16] fix: reject space groups acting on other than 3 spatial
 axes

---
 groco/groups/space_groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..b368f14 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -10,6 +10,8 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
+    if len(spatial_axes) != 3:
+        raise ValueError(f"Expected 3 spatial axes, got {spatial_axes}.")
     offset = spatial_axes[0]
     prefix = tuple(range(offset))
     suffix = tuple(range(offset + 3, ops.ndim(signal)))
-- 
2.43.0


From 082dd8b4edbc26b0ab39c377077f986b9f91e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 14/16] fix: act with space groups on the given spatial axes,
 consecutive or not

---
 groco/groups/space_groups.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index b368f14..f7f5fc5 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -12,11 +12,12 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
     if len(spatial_axes) != 3:
         raise ValueError(f"Expected 3 spatial axes, got {spatial_axes}.")
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
+    axes = range(ops.ndim(signal))
     Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
+        (
+            [spatial_axes[perm[spatial_axes.index(a)]] if a in spatial_axes else a for a in axes],
+            [spatial_axes[f] for f in flip],
+        )
         for (perm, flip) in Oh_parameters
     ]
     transformed_signals = []
-- 
2.43.0


From 9d1f1ff056888ba91967cc53209db77ab68184c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 15/16] fix: call group convolutions that were frozen after
 being built

---
 groco/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 0e318fe..99f0282 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -10,7 +10,8 @@ def backup_and_restore(attribute_names):
                 result = function(self, inputs)
             finally:
                 for name in attribute_names:
-                    setattr(self, name, backup[name])
+                    # not setattr: Keras would try to track the variables of frozen layers anew
+                    object.__setattr__(self, name, backup[name])
             return result
 
         return wrapper
-- 
2.43.0


From 8d0085231fff91496b4c0e52f1c9e4f2b2e8eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 16/16] fix: keep the type of signals when padding them, for
 layers with a dtype of their own

---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 98ad76c..a293807 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -75,7 +75,8 @@ class EquivariantPadding(Layer):
         self.equivariant_padding = None
         self.needs_padding = None
 
-        super().__init__()
+        # padding keeps the type of its input, which is that of the layer it pads for
+        super().__init__(autocast=False)
 
     def call(self, inputs):
         if self.needs_padding:
-- 
2.43.0

