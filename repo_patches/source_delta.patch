From eb7aee55b893b04c05859d150d790bfcee7f3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 01/81] fix: copy ONNX constants before normalizing negative
 axes and indices in place

---
 .../importers/ONNX_importer/create_layer.py   | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..f938b35 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -495,7 +495,9 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = np.array(
+        onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)),
+    )
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -534,7 +536,9 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = np.array(
+        onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)),
+    )
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -800,8 +804,10 @@ def create_reduce_sum(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
+            attributes["axes"] = np.array(
+                onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                ),
             )
         else:
             attributes["axes"] = []
@@ -854,8 +860,10 @@ def create_reduce_max(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
+            attributes["axes"] = np.array(
+                onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                ),
             )
         else:
             attributes["axes"] = []
@@ -908,8 +916,10 @@ def create_reduce_min(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
+            attributes["axes"] = np.array(
+                onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                ),
             )
         else:
             attributes["axes"] = []
@@ -962,8 +972,10 @@ def create_reduce_mean(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
+            attributes["axes"] = np.array(
+                onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                ),
             )
         else:
             attributes["axes"] = []
@@ -1016,8 +1028,10 @@ def create_reduce_prod(
         if "noop_with_empty_axes" not in attributes:
             attributes["noop_with_empty_axes"] = 0
         if len(node.input) == is_axes:
-            attributes["axes"] = onnx.numpy_helper.to_array(
-                look_for_initializer(node.input[1], model),
+            attributes["axes"] = np.array(
+                onnx.numpy_helper.to_array(
+                    look_for_initializer(node.input[1], model),
+                ),
             )
         else:
             attributes["axes"] = []
-- 
2.43.0


From 8f72ab28501d341874f6fb6cf5290e99d1e8b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 02/81] fix: read the input name and the axes attribute of ONNX
 Tile and Reduce nodes

---
 .../importers/ONNX_importer/create_layer.py   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index f938b35..d9494d5 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -755,7 +755,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -788,14 +788,14 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -844,14 +844,14 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -900,14 +900,14 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -956,14 +956,14 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1012,14 +1012,14 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
-- 
2.43.0


From 6a46c13832f624ee40fd7f92123b9b8a699d5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 03/81] fix: read the right input elements in the C code of the
 Reduce layers

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py      | 8 ++++----
 src/acetone_nnet/templates/layers/template_Reduce.c.tpl | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..32ebdf3 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -172,7 +172,7 @@ class Reduce(Layer):
             if self.noop_with_empty_axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 759c6867dc7997a1255755332e5323dd03b1899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 04/81] fix: apply the activation function in the reference
 inference of the Reduce layers

---
 .../generator/layers/reduce/reduce_max/ReduceMax.py    | 10 +++++++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py  | 10 +++++++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py    | 10 +++++++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py  | 10 +++++++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py    | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..03b4706 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,13 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.max(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.max(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..b62ed47 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,13 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.mean(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.mean(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..979b403 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,10 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.min(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.min(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..c4190cb 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,10 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..f3fe389 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,10 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.add.reduce(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
-- 
2.43.0


From f84efb2936a2a1eb309950653128a8eb1b486185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 05/81] fix: apply the activation once and stay inside the
 input in the C code of the Pad layers

---
 .../layers/padding/reflect_pad/ReflectPadDefault.py         | 6 +++---
 .../templates/layers/Pad/template_Pad_Non_Constant.c.tpl    | 5 -----
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 3 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
index 22efb2f..051ba77 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
@@ -44,9 +44,9 @@ class ReflectPadDefault(ReflectPad):
         mustach_hash["pads_front"] = self.pads[1]
         mustach_hash["pads_top"] = self.pads[2]
         mustach_hash["pads_left"] = self.pads[3]
-        mustach_hash["channels_max"] = self.input_shape[1] - 1
-        mustach_hash["height_max"] = self.input_shape[2] - 1
-        mustach_hash["width_max"] = self.input_shape[3] - 1
+        mustach_hash["channels_max"] = max(self.input_shape[1] - 1, 1)
+        mustach_hash["height_max"] = max(self.input_shape[2] - 1, 1)
+        mustach_hash["width_max"] = max(self.input_shape[3] - 1, 1)
 
         with open(self.template_path / "layers" / "Pad" / "template_Reflect_Pad.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..76b7926 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -12,12 +12,7 @@
                 {{{change_indice}}}
 
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = ctx->{{output_str}}[new_j + {{input_width}} * (new_i + {{input_height}} * new_f)];
-                {{^linear}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/linear}}
-                {{#activation_function}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/activation_function}}
             }
         }
     }
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From c62b399cdcd63c67d71a079fbf6ea507ad44d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 06/81] fix: read optional inputs, axes and lower rank tensors
 of ONNX Pad nodes

---
 .../importers/ONNX_importer/create_layer.py   | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index d9494d5..3a6d438 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -456,24 +456,29 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
-    else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+    rank = len(get_shape(node.input[0], model, extend=False))
+    pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    constant_value = 0.0
+    if len(initializers) > 1 and initializers[1]:
+        constant_value = float(onnx.numpy_helper.to_array(initializers[1]))
+    axes = list(range(rank))
+    if len(initializers) > 2 and initializers[2]:  # noqa: PLR2004
+        axes = [int(axe) for axe in onnx.numpy_helper.to_array(initializers[2])]
+
+    # Express the pads for the four dimensions of the extended input
+    full_pads = [0] * 2 * len(input_shape)
+    for i, axe in enumerate(axes):
+        dim = axe % rank + len(input_shape) - rank
+        full_pads[dim] = pads[i]
+        full_pads[dim + len(input_shape)] = pads[i + len(axes)]
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
-        axes=axes,
+        pads=full_pads,
+        constant_value=constant_value,
+        axes=[],
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
     )
-- 
2.43.0


From 21d01cca145380cab35e19b81ed75b13ebd98dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 07/81] fix: keep value, order and sign of the constant
 operands of ONNX Sub, Div, Mul, Max, Min and Mean nodes

---
 .../importers/ONNX_importer/create_layer.py   | 102 ++++--------------
 1 file changed, 23 insertions(+), 79 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 3a6d438..67fa576 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1184,6 +1184,21 @@ def _collect_node_inputs(
     return collected
 
 
+def _connect_broadcast_inputs(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+    idx: int,
+    dict_input: dict,
+) -> np.ndarray:
+    """Register tensors and constants as inputs, in order, and return their 4D shapes."""
+    dict_input[idx] = []
+    input_shapes = []
+    for name, shape in _collect_node_inputs(model, node):
+        input_shapes.append([1] * (4 - len(shape)) + [int(dim) for dim in shape])
+        dict_input[idx].append(name)
+    return np.array(input_shapes)
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1223,31 +1238,10 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
+    input_shapes = _connect_broadcast_inputs(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Divide(
         original_name=node.name,
         idx=idx,
@@ -1255,7 +1249,6 @@ def create_div(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1268,29 +1261,10 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
+    input_shapes = _connect_broadcast_inputs(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Multiply(
         original_name=node.name,
         idx=idx,
@@ -1298,7 +1272,6 @@ def create_mul(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1311,29 +1284,10 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
+    input_shapes = _connect_broadcast_inputs(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Subtract(
         original_name=node.name,
         idx=idx,
@@ -1341,7 +1295,6 @@ def create_sub(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1354,18 +1307,15 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = _connect_broadcast_inputs(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     return Maximum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1380,18 +1330,15 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = _connect_broadcast_inputs(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     return Minimum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1406,12 +1353,9 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = _connect_broadcast_inputs(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     return Average(
         original_name=node.name,
-- 
2.43.0


From f5a1ff745bbd7c53e35bd37826cf3158ce1b330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 08/81] fix: broadcast every operand, without modifying it, in
 the reference inference of element-wise layers

---
 .../generator/layers/broadcast/add/Add.py             | 11 +++++++++--
 .../generator/layers/broadcast/average/Average.py     |  6 +++---
 .../generator/layers/broadcast/divide/Divide.py       |  2 +-
 .../generator/layers/broadcast/maximum/Maximum.py     |  6 +++---
 .../generator/layers/broadcast/minimum/Minimum.py     |  6 +++---
 .../generator/layers/broadcast/multiply/Multiply.py   |  2 +-
 .../generator/layers/broadcast/subtract/Subtract.py   |  2 +-
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..75c920e 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,14 +118,21 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output + np.reshape(
+                    input_arrays[i],
+                    self.input_shapes[i][1:],
+                ).astype(output.dtype)
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
                     np.copy(input_arrays[0])
                     .reshape(self.input_shapes[0][1:])
                     .astype(dtype=np.int64))
-                out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
+                for i in range(1, len(input_arrays)):
+                    out_i64 = out_i64 + np.reshape(
+                        input_arrays[i],
+                        self.input_shapes[i][1:],
+                    ).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..ef34f3d 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,9 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
+            output = output + np.reshape(input_array, shape[1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..7231d21 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,9 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
+            maxi = np.maximum(maxi, np.reshape(input_array, shape[1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..132ed7b 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,9 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
+            mini = np.minimum(mini, np.reshape(input_array, shape[1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
-- 
2.43.0


From 211602e57b1d1474d9db344990fb5c8cab3c45ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 09/81] fix: use the padding of the right dimension, exclude it
 from the pool and apply the activation in Pooling2D

---
 .../generator/layers/pooling/Pooling2D.py        | 16 ++++++----------
 .../templates/layers/template_Pooling2D.c.tpl    |  4 ++--
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..37bba2c 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,14 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
+        # The padding is not part of the pooled elements
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
+                    row = i * self.strides - self.pad_top
+                    col = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[c, max(row, 0):row + self.pool_size,
+                        max(col, 0):col + self.pool_size])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
-- 
2.43.0


From be7f2c082892047f4debbd875a789a352acefbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 10/81] fix: use the vertical padding and the pooled area in
 channels-last pooling

---
 .../average_pooling/AveragePooling2DDefault.py    |  2 +-
 .../pooling/max_pooling/MaxPooling2DDefault.py    |  2 +-
 .../templates/layers/template_Pooling2D_HWC.c.tpl | 15 ++++++---------
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..49f43e8 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,14 +1,10 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +23,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
@@ -46,9 +42,10 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging over the elements which are not padding
+                int area = (kh_end - kh_start) * (kw_end - kw_start);
                 for (int c = 0; c < {{input_channels}}; ++c) {
-                    out_ptr[c] *= inv_area;
+                    out_ptr[c] /= area;
                 }
                 {{/is_avgpool}}
                 {{#activation_function}}
-- 
2.43.0


From e24b9fc7ed24667fd0508b6c04776c0a5e80b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 11/81] fix: account for dilation and groups in the reference
 inference and the SAME padding of Conv2D

---
 .../generator/layers/convolution/Conv2D.py            | 11 ++++++++---
 src/acetone_nnet/ir/layer.py                          |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..2f1c4ef 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,15 +267,20 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        group_channels = self.input_channels // self.group
+        group_filters = self.nb_filters // self.group
+        extent_h = (self.kernel_h - 1) * self.dilation_rate + 1
+        extent_w = (self.kernel_w - 1) * self.dilation_rate + 1
         for f in range(self.nb_filters):
+            first_channel = (f // group_filters) * group_channels
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     w = (
                         self.weights[f, :, :, :]
                         * input_padded[
-                            ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            first_channel : first_channel + group_channels,
+                            i * self.strides : i * self.strides + extent_h : self.dilation_rate,
+                            j * self.strides : j * self.strides + extent_w : self.dilation_rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From a65add8b8613295651c0d4b4ba1046e30fb08ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 12/81] fix: honour the group attribute of ONNX Conv, and
 reject it in the implementations which ignore it

---
 src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py | 4 +++-
 src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py   | 3 +++
 .../generator/layers/convolution/Conv2DGemmTarget.py          | 1 +
 .../generator/layers/convolution/Conv2DIndirectGemm.py        | 1 +
 .../generator/layers/convolution/Conv2DStdGemm.py             | 1 +
 .../generator/layers/convolution/Conv2Ddirect_block.py        | 3 +++
 src/acetone_nnet/importers/ONNX_importer/create_layer.py      | 1 +
 .../templates/layers/Conv/template_Conv_6loops.c.tpl          | 4 ++--
 8 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py b/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py
index 132f209..27e27c8 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D6loops.py
@@ -53,7 +53,8 @@ class Conv2D6loops(Conv2D):
         mustach_hash["nb_filters"] = self.nb_filters
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
-        mustach_hash["input_channels"] = self.input_channels
+        mustach_hash["group_channels"] = self.input_channels // self.group
+        mustach_hash["group_filters"] = self.nb_filters // self.group
         mustach_hash["kernel_h"] = self.kernel_h
         mustach_hash["kernel_w"] = self.kernel_w
         mustach_hash["strides"] = self.strides
@@ -91,6 +92,7 @@ def conv2d_6loops_implementation(
         weights=old_layer.weights,
         biases=old_layer.biases,
         activation_function=old_layer.activation_function,
+        group=old_layer.group,
     )
 
 
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 892a83d..e54d4d6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -31,6 +31,9 @@ class Conv2DGemm(Conv2D):
     def __init__(self: Self, **kwargs: int) -> None:
         """Instantiate a Conv2D with a gemm implementation."""
         super().__init__(**kwargs)
+        if self.group != 1:
+            msg = f"Error: group value in Conv2D ({self.group}), gemm implementations only support 1"
+            raise ValueError(msg)
         self.patches_height = self.input_channels * self.kernel_h * self.kernel_w
         self.patches_width = self.output_height * self.output_width
         self.patches_size = self.patches_height * self.patches_width
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 00cd4f7..ee16634 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -169,6 +169,7 @@ def conv2d_gemm_target_implementation(
         weights=old_layer.weights,
         biases=old_layer.biases,
         activation_function=old_layer.activation_function,
+        group=old_layer.group,
     )
 
 
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
index 96ada2b..3f51652 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
@@ -147,6 +147,7 @@ def conv2d_indirect_gemm_implementation(
         weights=old_layer.weights,
         biases=old_layer.biases,
         activation_function=old_layer.activation_function,
+        group=old_layer.group,
     )
 
 
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..e6b828b 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -149,6 +149,7 @@ def conv2d_std_gemm_implementation(
         weights=old_layer.weights,
         biases=old_layer.biases,
         activation_function=old_layer.activation_function,
+        group=old_layer.group,
     )
 
 
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..62552fb 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -63,6 +63,9 @@ class Conv2Ddirect_block(Conv2D):
     def __init__(self: Self, **kwargs: Any) -> None:
         """Build a Convolution layer with 6 loops implementation."""
         super().__init__(**kwargs)
+        if self.group != 1 and not (self.group == self.input_channels == self.nb_filters):
+            msg = f"Error: group value in Conv2D ({self.group}), direct_block only supports dense and depthwise convolutions"
+            raise ValueError(msg)
         #output channel block size for 3x3 <= 64, and for 1x1 <= 512
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 67fa576..e763812 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -320,6 +320,7 @@ def create_conv(
         weights=weights,
         biases=biases,
         activation_function=Linear(),
+        group=attributes["group"],
     )
 
 
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_6loops.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_6loops.c.tpl
index 9e28ffa..da87c0a 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_6loops.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_6loops.c.tpl
@@ -6,7 +6,7 @@
             for (j = 0; j < {{output_width}}; ++j)
             {
                 sum = 0;
-                for (p = 0; p < {{input_channels}}; ++p)
+                for (p = 0; p < {{group_channels}}; ++p)
                 {
                     for (h = 0; h < {{kernel_h}}; ++h)
                     {
@@ -16,7 +16,7 @@
                             int jj = j*{{strides}} + w*{{dilation_rate}} - {{pad_left}};
 
                             if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
-                                sum += ctx->{{output_str}}[jj + {{input_width}}*(ii + {{input_height}}*p)] * weights_{{name}}_{{idx}}[w + {{kernel_w}}*(h + {{kernel_h}}*(p + {{input_channels}}*f))];
+                                sum += ctx->{{output_str}}[jj + {{input_width}}*(ii + {{input_height}}*(p + {{group_channels}}*(f/{{group_filters}})))] * weights_{{name}}_{{idx}}[w + {{kernel_w}}*(h + {{kernel_h}}*(p + {{group_channels}}*f))];
                         }
                     }
                 }
-- 
2.43.0


From b9ad2bfc457573d0aa4d146e6cf6c19a48d66a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 13/81] fix: compute the right convolution in every gemm
 implementation (layouts, dilation, double precision, patches of the indirect
 one)

---
 .../layers/convolution/Conv2DGemm.py          | 16 +++-
 .../layers/convolution/Conv2DGemmTarget.py    |  2 +
 .../layers/convolution/Conv2DIndirectGemm.py  | 74 +++++--------------
 .../layers/convolution/Conv2DStdGemm.py       |  3 +
 src/acetone_nnet/generator/neural_network.py  | 27 ++++---
 .../layers/Conv/template_Conv_gemm_nn.c.tpl   |  6 +-
 .../layers/Conv/template_Conv_gemm_nt.c.tpl   |  4 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl   | 15 ++--
 .../layers/Conv/template_Conv_gemm_tt.c.tpl   |  6 +-
 .../Conv/template_Conv_indirect_gemm.c.tpl    |  2 +
 .../layers/Conv/template_Conv_std_gemm.c.tpl  |  2 +-
 .../layers/Conv/template_im2col.c.tpl         |  4 +-
 .../layers/Conv/template_im2row.c.tpl         |  6 +-
 .../templates/template_header_file.c.tpl      |  2 +-
 .../templates/template_parameter_file.c.tpl   |  5 +-
 15 files changed, 76 insertions(+), 98 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index e54d4d6..a1ca342 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -19,6 +19,7 @@
 ******************************************************************************
 """
 
+import numpy as np
 import pystache
 from typing_extensions import Self
 
@@ -44,6 +45,13 @@ class Conv2DGemm(Conv2D):
                                   "gemm_tn": self.write_gemm_tn,
                                   "gemm_tt": self.write_gemm_tt}
 
+    @property
+    def layout(self: Self) -> np.ndarray:
+        """Return the weights as the generated code reads them."""
+        if self.conv_algorithm in ["gemm_tn", "gemm_tt"]:
+            return np.ascontiguousarray(self.weights.reshape(self.nb_filters, -1).T)
+        return self.weights
+
     def write_gemm_nn(
             self: Self,
             m: int,
@@ -102,7 +110,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
@@ -135,7 +143,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
         mustach_hash["ldB"] = n
         mustach_hash["C"] = c
@@ -170,9 +178,9 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index ee16634..3548a9b 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -86,6 +86,7 @@ class Conv2DGemmTarget(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -126,6 +127,7 @@ class Conv2DGemmTarget(Conv2DGemm):
 
         if "cst" not in self.previous_layer[0].output_str:
             mustach_hash["cst"] = True
+            mustach_hash["input_str"] = self.previous_layer[0].output_str
             mustach_hash["input_size"] = (
                 self.input_channels * self.input_height * self.input_width
             )
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
index 3f51652..f7fb900 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
@@ -36,61 +36,25 @@ class Conv2DIndirectGemm(Conv2DGemm):
         """Build a Convolution layer with indirect gemm implementation."""
         super().__init__(**kwargs)
 
-    def create_ppatches(self: Self) -> str:
-        """Generate the new matrix to multiply in the Gemm algorithm."""
-        if self.pad_right or self.pad_left or self.pad_bottom or self.pad_top:
-            self.input_h_padded = self.input_height + self.pad_top + self.pad_bottom
-            self.input_w_padded = self.input_width + self.pad_left + self.pad_right
-
-            start_idx = np.arange(self.kernel_h)[:, None] * self.input_w_padded + np.arange(self.kernel_w)
-            c = self.input_h_padded * self.input_w_padded * np.arange(self.input_channels)
-            start_idx = (c[:, None] + start_idx.ravel()).reshape((-1, self.kernel_h, self.kernel_w))
-            offset_idx = np.arange(self.output_height * self.strides, step=self.strides)[:,
-                         None] * self.input_w_padded + np.arange(self.output_width * self.strides, step=self.strides)
-            idx_padded_input = (start_idx.ravel()[:, None] + offset_idx.ravel()).flatten()
-
-            idx_of_zeros = []
-            j_zeros = np.concatenate(
-                (np.arange(self.pad_left), np.arange(self.pad_right) + (self.input_w_padded - self.pad_right)))
-            i_zeros = np.concatenate(
-                (np.arange(self.pad_top), np.arange(self.pad_bottom) + (self.input_h_padded - self.pad_bottom)))
-            for c in range(self.input_channels):
-                for i in range(self.input_h_padded):
-                    for j in range(self.input_w_padded):
-                        if np.isin(i, i_zeros) or np.isin(j, j_zeros):
-                            idx_of_zeros.append(j + self.input_w_padded * (i + self.input_h_padded * c))
-
-            idx_padded_input = np.where(np.isin(idx_padded_input, idx_of_zeros), np.nan, idx_padded_input)
-            _, idx_padded_input = np.unique(idx_padded_input, return_inverse=True)
-            self.ppatches = np.where(idx_padded_input == self.input_channels * self.input_height * self.input_width,
-                                     np.nan, idx_padded_input)
-
-        else:
-            start_idx = np.arange(self.kernel_h)[:, None] * self.input_width + np.arange(self.kernel_w)
-            c = self.input_height * self.input_width * np.arange(self.input_channels)
-            start_idx = (c[:, None] + start_idx.ravel()).reshape((-1, self.kernel_h, self.kernel_w))
-            offset_idx = np.arange(self.output_height * self.strides, step=self.strides)[:,
-                         None] * self.input_width + np.arange(self.output_width * self.strides, step=self.strides)
-            self.ppatches = (start_idx.ravel()[:, None] + offset_idx.ravel()).flatten()
+    def create_ppatches(self: Self) -> np.ndarray:
+        """Generate the new matrix to multiply in the Gemm algorithm.
+
+        Each element is the offset of the patch element in the input tensor, or -1 when
+        it lies in the padding.
+        """
+        c, kh, kw, i, j = np.indices(
+            (self.input_channels, self.kernel_h, self.kernel_w, self.output_height, self.output_width),
+        )
+        ii = i * self.strides - self.pad_top + kh * self.dilation_rate
+        jj = j * self.strides - self.pad_left + kw * self.dilation_rate
+        inside = (ii >= 0) & (ii < self.input_height) & (jj >= 0) & (jj < self.input_width)
+        ppatches = np.where(inside, (c * self.input_height + ii) * self.input_width + jj, -1)
+        ppatches = ppatches.reshape((self.patches_height, self.patches_width))
 
         if "gemm_nt" in self.conv_algorithm or "gemm_tt" in self.conv_algorithm:
-            self.ppatches = self.ppatches.reshape((self.patches_height, self.patches_width)).transpose().flatten()
+            ppatches = ppatches.transpose()
 
-        output_str = self.previous_layer[0].output_str
-
-        s = "\n        {"
-        for i in range(len(self.ppatches)):
-            if np.isnan(self.ppatches[i]):
-                s += "&zero, "
-            else:
-                s += "&" + output_str + "[" + str(int(self.ppatches[i])) + "], "
-
-        print(self.name, self.idx, "patches size:", self.ppatches.shape)
-
-        s = s[:-2]
-        s += "}"
-
-        return s
+        return ppatches.flatten().astype(np.int32)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
@@ -110,14 +74,12 @@ class Conv2DIndirectGemm(Conv2DGemm):
             self.patches_width,
             self.patches_height,
             f"weights_{self.name}_{self.idx:02d}",
-            f"ppatches_{self.name}_{self.idx:02d}",
+            f"patch_{self.name}_{self.idx:02d}",
             f"output_{self.path}",
             True)
         mustach_hash["gemm_code"] = gemm_code
 
-        if "cst" not in self.previous_layer[0].output_str:
-            mustach_hash["cst"] = True
-        mustach_hash["prev_size"] = self.input_channels * self.input_height * self.input_width
+        mustach_hash["output_str"] = self.previous_layer[0].output_str
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_indirect_gemm.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index e6b828b..d736744 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -54,6 +54,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +83,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -119,6 +121,7 @@ class Conv2DStdGemm(Conv2DGemm):
 
         if "cst" not in self.previous_layer[0].output_str:
             mustach_hash["cst"] = True
+            mustach_hash["input_str"] = self.previous_layer[0].output_str
             mustach_hash["input_size"] = self.input_channels * self.input_height * self.input_width
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_std_gemm.c.tpl") as template_file:
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..feaf951 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -451,7 +451,7 @@ class CodeGenerator(ABC):
         for layer in self.layers:
             if (w := getattr(layer, "weights", None)) is not None and layer.nb_weights > 0:
                 memcpy_names.append(f"weights_{layer.name}_{layer.idx:02d}")
-                sizes.append(layer.nb_weights)
+                sizes.append(getattr(layer, "layout", w).size)
             if isinstance(layer, ConstantLayer) and layer.constant.size > 0:
                 memcpy_names.append(f"weights_{layer.name}_{layer.idx:02d}")
                 sizes.append(layer.constant.size)
@@ -1025,8 +1025,9 @@ class CodeGenerator(ABC):
             layer_hash = {"name": layer.name, "idx": f"{layer.idx:02d}"}
 
             if hasattr(layer, "weights"):
-                layer_hash["nb_weights"] = layer.nb_weights
-                self.nb_weights_max = max(layer.nb_weights, self.nb_weights_max)
+                layout = getattr(layer, "layout", None)
+                layer_hash["nb_weights"] = layer.nb_weights if layout is None else layout.size
+                self.nb_weights_max = max(layer_hash["nb_weights"], self.nb_weights_max)
                 to_print = True
 
             if isinstance(layer, ConstantLayer):
@@ -1125,9 +1126,6 @@ class CodeGenerator(ABC):
     def generate_bin_parameter_file(self: Self, output_dir: Path) -> None:
         """Generate binary file for layer data."""
         symtab = {}
-        if any(isinstance(layer, Conv2DIndirectGemm) for layer in self.layers):
-            symtab["zero"] = np.array([0.0], dtype=np.float32)
-
         for layer in self.layers:
             if (w := getattr(layer, "weights", None)) is not None:
                 if (w := getattr(layer, "layout", None)) is not None:
@@ -1142,6 +1140,12 @@ class CodeGenerator(ABC):
             if hasattr(layer, "biases"):
                 symtab[f"biases_{layer.name}_{layer.idx:02d}"] = layer.biases
 
+            if isinstance(layer, Conv2DIndirectGemm):
+                symtab[f"ppatches_{layer.name}_{layer.idx:02d}"] = layer.create_ppatches()
+
+            if isinstance(layer, Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
             if issubclass(type(layer), BatchNormalization):
                 symtab[f"mean_{layer.name}_{layer.idx:02d}"] = layer.mean
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
@@ -1167,15 +1171,13 @@ class CodeGenerator(ABC):
             "page_size": self.target_page_size,
         }
         mustach_hash["layers"] = []
-        if any(isinstance(layer, Conv2DIndirectGemm) for layer in self.layers):
-            mustach_hash["zero"] = True
-
         for layer in self.layers:
             layer_hash = {"name": layer.name, "idx": f"{layer.idx:02d}"}
 
             if (w := getattr(layer, "weights", None)) is not None:
-                layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                w = getattr(layer, "layout", w)
+                layer_hash["nb_weights"] = w.size
+                layer_hash["weights"] = self.flatten_array_order_c(w)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
@@ -1187,7 +1189,8 @@ class CodeGenerator(ABC):
 
             if type(layer) is Conv2DIndirectGemm:
                 layer_hash["patches_size"] = layer.patches_size
-                layer_hash["patches"] = layer.create_ppatches()
+                patches = ", ".join(map(str, layer.create_ppatches()))
+                layer_hash["patches"] = f"\n        {{{patches}}}"
 
             if issubclass(type(layer), BatchNormalization):
                 layer_hash["channels"] = layer.output_channels
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
index 14077ca..6f7b33a 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
@@ -3,15 +3,15 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            register float weight = {{A}}[i*{{ldA}}+p];
+            __typeof__(ctx->tensor_temp[0]) weight = {{A}}[i*{{ldA}}+p];
             for(j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}} + j]);
+                ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}{{B}}(p*{{ldB}} + j){{/direct}}{{^direct}}ctx->{{B}}[p*{{ldB}} + j]{{/direct}};
             }
         }
         for(j = 0; j < {{n}}; ++j)
         {
-            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            __typeof__(ctx->tensor_temp[0]) output = ctx->tensor_temp[i*{{ldC}} + j];
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 3881f78..00c6eab 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -3,10 +3,10 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output =0;
+            __typeof__(ctx->tensor_temp[0]) output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                output += {{A}}[i*{{ldA}}+p]* {{#direct}}{{B}}(j*{{ldB}}+p){{/direct}}{{^direct}}ctx->{{B}}[j*{{ldB}}+p]{{/direct}};
             }
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 9d139f2..4ce2677 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -3,15 +3,16 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            float register weight = {{A}}[p*{{ldA}}+i];
+            __typeof__(ctx->tensor_temp[0]) weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}({{B}}[p*{{ldB}}+j]);
-            }
-            for(j = 0; j < {{n}}; ++j){
-                register float output = ctx->tensor_temp[i*{{ldC}} + j];
-                output += biases_{{name}}_{{idx}}[i];
-                ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}{{B}}(p*{{ldB}}+j){{/direct}}{{^direct}}ctx->{{B}}[p*{{ldB}}+j]{{/direct}};
             }
         }
+        for(j = 0; j < {{n}}; ++j)
+        {
+            __typeof__(ctx->tensor_temp[0]) output = ctx->tensor_temp[i*{{ldC}} + j];
+            output += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+        }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index f8fc0c8..264de11 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -3,12 +3,12 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            __typeof__(ctx->tensor_temp[0]) sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}{{B}}(j*{{ldB}}+p){{/direct}}{{^direct}}ctx->{{B}}[j*{{ldB}}+p]{{/direct}};
             }
             sum += biases_{{name}}_{{idx}}[i];
-            tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_indirect_gemm.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_indirect_gemm.c.tpl
index 6cc2be6..ada6c6c 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_indirect_gemm.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_indirect_gemm.c.tpl
@@ -3,7 +3,9 @@
     {
         ctx->tensor_temp[k] = 0;
     }
+#define patch_{{name}}_{{idx}}(o) (ppatches_{{name}}_{{idx}}[o] < 0 ? 0 : ctx->{{output_str}}[ppatches_{{name}}_{{idx}}[o]])
 {{{gemm_code}}}
+#undef patch_{{name}}_{{idx}}
     for (k = 0; k < {{size}}; ++k)
     {
         ctx->output_{{road}}[k] = ctx->tensor_temp[k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
index af87b11..75be157 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
@@ -2,7 +2,7 @@
     {{#cst}}
     for (k = 0; k < {{input_size}}; ++k)
     {
-        ctx->tensor_temp[k] = ctx->output_{{road}}[k];
+        ctx->tensor_temp[k] = ctx->{{input_str}}[k];
     }
     {{/cst}}
 {{{patch_building_code}}}
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..8ff48f5 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -9,8 +9,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
 
                 int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..769ec86 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -8,9 +8,9 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
-                int j = w*{{output_height}} + h;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
+                int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
                 else
diff --git a/src/acetone_nnet/templates/template_header_file.c.tpl b/src/acetone_nnet/templates/template_header_file.c.tpl
index a551a42..83dc713 100644
--- a/src/acetone_nnet/templates/template_header_file.c.tpl
+++ b/src/acetone_nnet/templates/template_header_file.c.tpl
@@ -26,7 +26,7 @@ extern const {{data_type}} weights_{{name}}_{{idx}}[{{nb_weights}}];
 extern const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}];
     {{/nb_biases}}
     {{#patches_size}}
-extern {{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}];
+extern const int ppatches_{{name}}_{{idx}}[{{patches_size}}];
     {{/patches_size}}
     {{#channels}}
 extern const {{data_type}} mean_{{name}}_{{idx}}[{{channels}}];
diff --git a/src/acetone_nnet/templates/template_parameter_file.c.tpl b/src/acetone_nnet/templates/template_parameter_file.c.tpl
index 44c66f5..b3685f1 100644
--- a/src/acetone_nnet/templates/template_parameter_file.c.tpl
+++ b/src/acetone_nnet/templates/template_parameter_file.c.tpl
@@ -1,7 +1,4 @@
 #include "inference.h"
-{{#zero}}
-const {{data_type}} zero = 0.0f;
-{{/zero}}
 
 {{#layers}}
     {{#nb_weights}}
@@ -13,7 +10,7 @@ const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}]  __attribute__((align
 
     {{/nb_biases}}
     {{#patches_size}}
-{{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}] __attribute__((aligned({{page_size}}))) = {{{patches}}};
+const int ppatches_{{name}}_{{idx}}[{{patches_size}}] __attribute__((aligned({{page_size}}))) = {{{patches}}};
 
     {{/patches_size}}
     {{#channels}}
-- 
2.43.0


From 51c8fe8e839cbd1754a687ec3aaba12170b47532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 14/81] fix: channels-last convolution and pooling code for odd
 outputs and double precision, reject direct_block on channels-first code

---
 src/acetone_nnet/generator/layers/__init__.py |  1 +
 .../layers/convolution/Conv2Ddirect_block.py  |  7 ++---
 src/acetone_nnet/generator/neural_network.py  |  6 +++++
 .../layers/Conv/template_Conv1x1_block.c.tpl  |  8 +++---
 .../Conv/template_Conv3x3_winograd.c.tpl      | 26 +++++++++----------
 .../layers/Conv/template_Conv_DW_HWC.c.tpl    |  8 +++---
 .../Conv/template_Conv_direct_block.c.tpl     |  8 +++---
 .../layers/Gemm/template_gemm_nn.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_nt.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_tn.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_tt.c.tpl        |  2 +-
 .../Resize/template_ResizeCubic2D.c.tpl       |  8 +++---
 .../layers/template_Pooling2D_HWC.c.tpl       |  4 +--
 13 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/__init__.py b/src/acetone_nnet/generator/layers/__init__.py
index 416e113..7c1cc02 100644
--- a/src/acetone_nnet/generator/layers/__init__.py
+++ b/src/acetone_nnet/generator/layers/__init__.py
@@ -68,6 +68,7 @@ from .convolution import (
     Conv2DGemmTarget,
     Conv2DIndirectGemm,
     Conv2DStdGemm,
+    Conv2Ddirect_block,
 )
 from .dense import Dense, DenseDefault
 from .flatten import Flatten, FlattenDefault
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index 62552fb..b408d5d 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -35,7 +35,6 @@ class Conv2Ddirect_block(Conv2D):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -49,7 +48,7 @@ class Conv2Ddirect_block(Conv2D):
             layout = layout.reshape(nb_k, self.block_k, C) #no bloc_c for 1x1 conv
             return layout.transpose(0, 2, 1).copy("C")
         #case winograd 3x3 stride 1
-        elif layout.shape[2]==3 and layout.shape[3]==3 and self.strides==1 and even_image:
+        elif layout.shape[2]==3 and layout.shape[3]==3 and self.strides==1 and self.even_output:
             w_orig = layout
             G = np.array([[1.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.0, 0.0, 1.0]],dtype=np.float32)
             w_win = np.einsum('ij,okjl,ml->okim',G,layout,G,optimize=True)
@@ -69,6 +68,8 @@ class Conv2Ddirect_block(Conv2D):
         #output channel block size for 3x3 <= 64, and for 1x1 <= 512
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
+        #winograd computes 2x2 tiles of the output
+        self.even_output = self.output_height%2==0 and self.output_width%2==0
         self.layout = self.transform_to_6d_blocked_layout()
 
     def generate_inference_code_layer(self: Self) -> str:
@@ -113,7 +114,7 @@ class Conv2Ddirect_block(Conv2D):
         elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.even_output:
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index feaf951..8e76720 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -61,6 +61,7 @@ from .layers import (
     ConstantLayer,
     Conv2D,
     Conv2D6loops,
+    Conv2Ddirect_block,
     Conv2DGemmTarget,
     Conv2DIndirectGemm,
     Conv2DStdGemm,
@@ -197,6 +198,11 @@ class CodeGenerator(ABC):
         }
         self.versions = self.select_layers_implementation(versions)
         self.layers = versioning(self.layers, self.versions)
+        if self.gen_data_format != "channels_last" and any(
+            isinstance(layer, Conv2Ddirect_block) for layer in self.layers
+        ):
+            msg = "Error: Conv2D implementation.\n direct_block requires gen_data_format channels_last"
+            raise ValueError(msg)
 
         self.quantize_layers()
 
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
index 853061e..e743fff 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
@@ -5,8 +5,8 @@
      */
     for (int oh = 0; oh < {{H_in}} / {{STRIDE}}; ++oh) {
         for (int ow = 0; ow < {{W_in}} / {{STRIDE}}; ++ow) {            
-            const float* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
-            float* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
+            const __typeof__(ctx->tensor_temp[0])* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
+            __typeof__(ctx->tensor_temp[0])* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
 
             for (int ok_b = 0; ok_b < {{K}}; ok_b += {{BLOCK_K}}) {
                 
@@ -14,9 +14,9 @@
                     o_ptr[ok_b+k] = biases_{{name}}_{{idx}}[ok_b + k];
 
                 for (int ic = 0; ic < {{C}}; ++ic) {
-                    float val_in = pixel_in[ic];
+                    __typeof__(ctx->tensor_temp[0]) val_in = pixel_in[ic];
                     // Weights layout: [NB_BK][C][BK] = [{{NB_BLOCK_K}}][{{C}}][{{BLOCK_K}}]
-                    const float* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
+                    const __typeof__(ctx->tensor_temp[0])* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
                     #pragma omp simd
                     for (int k = 0; k < {{BLOCK_K}}; ++k)
                         o_ptr[ok_b+k] += val_in * w_ptr[k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 151c83f..f1e0aa5 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -10,15 +10,15 @@
         for (int oh = 0; oh < ({{H_out}} / 2) * 2; oh += 2){
         for (int ow = 0; ow < ({{W_out}} / 2) * 2; ow += 2){
             /* Accumulateurs pour les 16 points du domaine Winograd sur BK canaux */
-            float acc[4][4][{{BLOCK_K}}] = {0};
+            __typeof__(ctx->tensor_temp[0]) acc[4][4][{{BLOCK_K}}] = {0};
 
             for (int ic = 0; ic < {{C}}; ic++) {
-                float d[4][4];
+                __typeof__(ctx->tensor_temp[0]) d[4][4];
                 
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
                     int ih = oh + r - {{PAD}};
-                    const float* row_ptr = &ctx->{{output_str}}[ih * {{W_in}} * {{C}} + ic];
+                    const __typeof__(ctx->tensor_temp[0])* row_ptr = &ctx->{{output_str}}[ih * {{W_in}} * {{C}} + ic];
                     int valid_h = (ih >= 0 && ih < {{H_in}});
                     
                     for(int c = 0; c < 4; ++c) {
@@ -29,7 +29,7 @@
                 }
 
                 /* 1. Transformation de l'entrée (Data Transform BT * d * B) */
-                float temp[4][4];
+                __typeof__(ctx->tensor_temp[0]) temp[4][4];
                 for(int i = 0; i < 4; i++) {
                     temp[0][i] = d[0][i] - d[2][i];
                     temp[1][i] = d[1][i] + d[2][i];
@@ -40,25 +40,25 @@
                 /* 2. Transformation horizontale + Multiplication + Accumulation */
                 for(int i = 0; i < 4; i++) {
                     {
-                        const float* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][0][k] += (temp[i][0] - temp[i][2]) * w0[k];
                     }
                     {
-                        const float* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][1][k] += (temp[i][1] + temp[i][2]) * w1[k];
                     }
                     {
-                        const float* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][2][k] += (temp[i][2] - temp[i][1]) * w2[k];
                     }
                     {
-                        const float* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
+                        const __typeof__(ctx->tensor_temp[0])* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][3][k] += (temp[i][1] - temp[i][3]) * w3[k];
                     }
                 }
             }
 
-            float m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
+            __typeof__(ctx->tensor_temp[0]) m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
             /* 3. Transformation de sortie (AT * M * A) + Biais + Activation */
             for (int k = 0; k < {{BLOCK_K}}; k++) {
                 m_temp[0][0][k] = acc[0][0][k] + acc[1][0][k] + acc[2][0][k];
@@ -72,22 +72,22 @@
 
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][0][k] + m_temp[0][1][k] + m_temp[0][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][1][k] - m_temp[0][2][k] - m_temp[0][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][0][k] + m_temp[1][1][k] + m_temp[1][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                __typeof__(ctx->tensor_temp[0]) *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][1][k] - m_temp[1][2][k] - m_temp[1][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }        
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
index 8e155e6..4e56311 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
@@ -12,10 +12,10 @@
 
         for (int ow = 0; ow < {{W_out}}; ++ow) {
             // Accès direct avec restrict pour l'écriture
-            float * restrict out_ptr = (float * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
+            __typeof__(ctx->tensor_temp[0]) * restrict out_ptr = (__typeof__(ctx->tensor_temp[0]) * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
             #pragma omp simd
             for (int k = 0; k < {{K}}; ++k) {
-                out_ptr[k] = ((const float * restrict)biases_{{name}}_{{idx}})[k];
+                out_ptr[k] = ((const __typeof__(ctx->tensor_temp[0]) * restrict)biases_{{name}}_{{idx}})[k];
             }
 
             const int w_start_idx = ow * {{STRIDE}} - {{PAD}};
@@ -26,8 +26,8 @@
                 const int ih = h_start_idx + kh;
                 for (int kw = kw_start; kw < kw_end; ++kw) {
                     const int iw = w_start_idx + kw;
-                    const float * restrict in_ptr = (const float * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
-                    const float * restrict w_ptr  = (const float * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
+                    const __typeof__(ctx->tensor_temp[0]) * restrict in_ptr = (const __typeof__(ctx->tensor_temp[0]) * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
+                    const __typeof__(ctx->tensor_temp[0]) * restrict w_ptr  = (const __typeof__(ctx->tensor_temp[0]) * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
 
                     #pragma omp simd
                     for (int k = 0; k < {{K}}; ++k) {
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
index 6994e7c..228044a 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
@@ -14,7 +14,7 @@
                 const int kw_s = ({{PAD}} - ow * {{STRIDE}} > 0) ? ({{PAD}} - ow * {{STRIDE}}) : 0;
                 const int kw_e = ({{KW}} < ({{W_in}} + {{PAD}} - ow * {{STRIDE}})) ? {{KW}} : ({{W_in}} + {{PAD}} - ow * {{STRIDE}});
                 
-                float* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
+                __typeof__(ctx->tensor_temp[0])* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                     o_ptr[k] = biases_{{name}}_{{idx}}[k_base + k];
 
@@ -24,10 +24,10 @@
                         const int ih = oh * {{STRIDE}} - {{PAD}} + kh;
                         for (int kw = kw_s; kw < kw_e; ++kw) {
                             const int iw = ow * {{STRIDE}} - {{PAD}} + kw;
-                            const float* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
-                            const float* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
+                            const __typeof__(ctx->tensor_temp[0])* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
+                            const __typeof__(ctx->tensor_temp[0])* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
                             for (int c = 0; c < {{BLOCK_C}}; ++c) {
-                                float iv = i_ptr[c];
+                                __typeof__(ctx->tensor_temp[0]) iv = i_ptr[c];
                                 #pragma omp simd
                                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                                     o_ptr[k] += iv * w_ptr_base[c * {{BLOCK_K}} + k];
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 2186fe0..e963041 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -3,7 +3,7 @@
     {
         for(j = 0; j< {{n}}; ++j)
         {
-            register float output = 0;
+            __typeof__(ctx->tensor_temp[0]) output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index 91d9da8..4f91188 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output = 0;
+            __typeof__(ctx->tensor_temp[0]) output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index ae27567..ffde7a8 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -3,7 +3,7 @@
     {
         for(j = 0; j < {{n}}; ++j)
         {
-            float register output = 0;
+            __typeof__(ctx->tensor_temp[0]) output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 186f4e8..0a66dee 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            __typeof__(ctx->tensor_temp[0]) sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
index 41542cf..9333a27 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
@@ -18,7 +18,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                __typeof__(ctx->tensor_temp[0]) b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0 < 0 ? 0 : y0 >= {{input_width}} ? {{input_width}} - 1 : y0;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -26,7 +26,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                __typeof__(ctx->tensor_temp[0]) b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0+1 < 0 ? 0 : y0+1 >= {{input_width}} ? {{input_width}} - 1 : y0+1;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -34,7 +34,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                __typeof__(ctx->tensor_temp[0]) b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0+2 < 0 ? 0 : y0+2 >= {{input_width}} ? {{input_width}} - 1 : y0+2;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -42,7 +42,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                __typeof__(ctx->tensor_temp[0]) b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 s = y - y0;
 
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index 49f43e8..fc9b368 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -13,7 +13,7 @@
                 
                 int temp_w_end = {{input_width}} + {{pad_left}} - ow * {{strides}};
                 int kw_end = ({{pool_size}} < temp_w_end) ? {{pool_size}} : temp_w_end;
-                float* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
+                __typeof__(ctx->tensor_temp[0])* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
 
                 // Initialize channel accumulators
                 for (int c = 0; c < {{input_channels}}; ++c) {
@@ -27,7 +27,7 @@
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
-                        const float* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
+                        const __typeof__(ctx->tensor_temp[0])* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
 
                         // Innermost Channel Loop 
                         for (int c = 0; c < {{input_channels}}; ++c) {
-- 
2.43.0


From ca2eb6895c2e86540940b041fe5d7538945fda66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 15/81] fix: only treat a Softmax as one-dimensional when it is
 computed along the non singleton axis

---
 src/acetone_nnet/generator/layers/softmax/Softmax.py        | 2 +-
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..bbadc10 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -47,7 +47,7 @@ class Softmax(Layer):
             self.original_name = original_name
         self.axis = axis
 
-        if self.size in output_shape:
+        if self.size in output_shape and (axis is None or output_shape[axis] == self.size):
             self.one_dimension = True
         else:
             self.output_channels = output_shape[1]
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..876ab11 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -96,15 +96,17 @@ def softmax_default_implementation(
     """Create a Softmax_Default layer using the attributes of old_layer."""
     if old_layer.one_dimension:
         output_shape = [1, 1, 1, old_layer.size]
+        axis = None
     else:
         output_shape = [1, old_layer.output_channels, old_layer.output_height, old_layer.output_width]
+        axis = old_layer.axis
     return SoftmaxDefault(
         version=version,
         original_name=old_layer.original_name,
         idx=old_layer.idx,
         size=old_layer.size,
         output_shape=output_shape,
-        axis=old_layer.axis,
+        axis=axis,
     )
 
 softmax_factory.register_implementation(
-- 
2.43.0


From 1be468d4e17c283fa27e191778d40e3877353309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 16/81] fix: accept the biases and scaling factors ONNX allows
 in Gemm nodes

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py   |  6 +++---
 .../importers/ONNX_importer/create_layer.py      | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..6f2daf2 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -96,12 +96,12 @@ class Gemm(Layer):
             msg += "Error: size type in Gemm (size must be int)"
             msg += "\n"
         if self.alpha != [] and (
-            type(self.alpha[0]) is not float and type(self.alpha[0]) is int
+            type(self.alpha[0]) is not float and type(self.alpha[0]) is not int
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
-            type(self.beta[0]) is not float and type(self.beta[0]) is int
+        if self.beta != [] and (
+            type(self.beta[0]) is not float and type(self.beta[0]) is not int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
             msg += "\n"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e763812..a84284e 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -585,10 +585,16 @@ def create_gemm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
-    if len(node.input) == 3:  # noqa: PLR2004
-        c_tensor = look_for_initializer(node.input[2], model)
+    weights = onnx.numpy_helper.to_array(b_tensor)
+    if len(node.input) == 3 and node.input[2] != "":  # noqa: PLR2004
+        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
+        if bias.ndim > 1 and bias.shape[0] != 1:
+            msg = f"Error: biases ({bias.shape}) in Gemm not supported (one value per row)"
+            raise ValueError(msg)
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros(1, dtype=weights.dtype)
+    # One bias per column of the output
+    bias = np.array(np.broadcast_to(bias.reshape(-1), (output_shape[-1],)))
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -605,8 +611,8 @@ def create_gemm(
         beta=attributes["beta"],
         transA=attributes["transA"],
         transB=attributes["transB"],
-        weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        weights=weights,
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From e25c231f3a69149949e93d9d09f03d5cad63a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 17/81] fix: default and lower rank permutations of ONNX
 Transpose, fused activations in the reference inference of data movement
 layers

---
 src/acetone_nnet/generator/layers/gather/Gather.py        | 4 +++-
 .../generator/layers/gather_elements/GatherElements.py    | 2 +-
 src/acetone_nnet/generator/layers/tile/Tile.py            | 4 +++-
 src/acetone_nnet/generator/layers/transpose/Transpose.py  | 4 +++-
 src/acetone_nnet/importers/ONNX_importer/create_layer.py  | 8 +++++++-
 5 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..1697c08 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,6 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.take(input_array, indices=self.indices, axis=self.axis - 1),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..719fac7 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..9a32080 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,6 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(
+            np.tile(input_array, self.repeats[1:]),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..13add70 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,6 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.transpose(input_array, self.perm),
+        )
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a84284e..c9d5eb9 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -746,12 +746,18 @@ def create_transpose(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    # By default, reverse the axes
+    rank = len(get_shape(node.input[0], model, extend=False))
+    perm = list(attributes.get("perm", reversed(range(rank))))
+    # Extend the permutation to the dimensions added to the shape
+    added = len(input_shape) - rank
+    perm = [*range(added), *(axis + added for axis in perm)]
     return Transpose(
         original_name=node.name,
         idx=idx,
         size=size,
         input_shape=input_shape,
-        perm=attributes["perm"],
+        perm=perm,
         activation_function=Linear(),
     )
 
-- 
2.43.0


From 3da23bc9f9ee9da0a1c93bc70a5f570f1cfa9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 18/81] fix: keep the input of bypassed ONNX nodes available to
 the other nodes

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index c9d5eb9..6ed5940 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1482,7 +1482,8 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    # The input remains available to the other nodes reading it
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From 2aff73d1582f5ab9352418b9e8d8ed41a19cfd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 19/81] fix: read the optional bounds of ONNX Clip and the
 shape of Constant nodes, evaluate sigmoid and tanh in the precision of the
 model

---
 .../generator/activation_functions.py         | 27 ++++++----------
 .../importers/ONNX_importer/create_layer.py   | 31 ++++++++++++-------
 .../importers/ONNX_importer/parser_ONNX.py    |  5 +--
 3 files changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..dbc5e9a 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -95,7 +95,7 @@ class Sigmoid(ActivationFunctions):
 
     def write_activation_str(self: Self, local_var: str) -> str:
         """Generate the string to print."""
-        return f"({local_var} < 0) ? (expf({local_var}) / (1. + expf({local_var}))) : (1. / (1. + expf(-{local_var})))"
+        return f"({local_var} < 0) ? (exp({local_var}) / (1. + exp({local_var}))) : (1. / (1. + exp(-{local_var})))"
 
 class Silu(ActivationFunctions):
     """Silu layer."""
@@ -182,7 +182,7 @@ class TanH(ActivationFunctions):
 
     def write_activation_str(self: Self, local_var: str) -> str:
         """Generate the string to print."""
-        return f"({local_var} < 0.) ? (expf(2.*{local_var}) - 1.) / (expf(2.*{local_var}) + 1.) : (1. - expf(-2.*{local_var})) / (1. + expf(-2.*{local_var}))"
+        return f"({local_var} < 0.) ? (exp(2.*{local_var}) - 1.) / (exp(2.*{local_var}) + 1.) : (1. - exp(-2.*{local_var})) / (1. + exp(-2.*{local_var}))"
 
 class Linear(ActivationFunctions):
     """Linear layer."""
@@ -267,19 +267,10 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
-        return (
-            local_var
-            + " > "
-            + str(self.max)
-            + " ? "
-            + str(self.max)
-            + " : ("
-            + local_var
-            + " < "
-            + str(self.min)
-            + " ? "
-            + str(self.min)
-            + " : "
-            + local_var
-            + ")"
-        )
+        # Infinite bounds are never reached
+        clip = local_var
+        if self.min != float("-inf"):
+            clip = f"({local_var} < {self.min} ? {self.min} : {local_var})"
+        if self.max != float("inf"):
+            clip = f"{local_var} > {self.max} ? {self.max} : {clip}"
+        return clip
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6ed5940..f76eed8 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1380,6 +1380,19 @@ def create_avg(
     )
 
 
+def clip_bounds(
+        node: onnx.NodeProto,
+        model: onnx.ModelProto,
+) -> tuple[float, float]:
+    """Read the optional bounds of a Clip node."""
+    bounds = [float("-inf"), float("inf")]
+    for i, name in enumerate(node.input[1:]):
+        if name:
+            bound = onnx.numpy_helper.to_array(look_for_initializer(name, model))
+            bounds[i] = bound.reshape(-1)[0]
+    return bounds[0], bounds[1]
+
+
 def instantiate_activation_layer(
         node: onnx.NodeProto,
         model: onnx.ModelProto,
@@ -1402,11 +1415,7 @@ def instantiate_activation_layer(
                 attribute["alpha"] = 0.01
             return LeakyReLu(attribute["alpha"])
         case "Clip":
-            mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+            mini, maxi = clip_bounds(node, model)
             return Clip(maxi,mini)
         case _:
             return None
@@ -1492,10 +1501,12 @@ def create_initializer(
     model: onnx.ModelProto,
 ) -> None:
     """Change a constant layer into an initializer."""
+    if node.attribute[0].name != "value":
+        msg = f"Error: attribute {node.attribute[0].name} in Constant not supported"
+        raise ValueError(msg)
     const = model.graph.initializer.add()
+    const.CopyFrom(node.attribute[0].t)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
@@ -1575,11 +1586,7 @@ def fuse_clip(
     layers: list,
 ) -> None:
     """Fuse the activation layer Clip with the prior layer."""
-    mini, maxi = float("-inf"), float("inf")
-    if node.input[1]:
-        mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-    if node.input[2]:
-        maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+    mini, maxi = clip_bounds(node, model)
     layers[dict_output[node.input[0]]].activation_function = Clip(
         max_value=maxi,
         min_value=mini,
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..8c772b9 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -90,8 +90,6 @@ def load_onnx(
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
-    # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
@@ -124,6 +122,9 @@ def load_onnx(
         else:
             raise TypeError("Error: layer " + node.op_type + " not supported\n")
 
+    # All the initializers, including the ones created from Constant nodes
+    init_dict = {i.name:i for i in model.graph.initializer}
+
     # Attach layers to their inputs and outputs
     for layer_idx, layer_inputs in dict_input.items():
         # The indices of a layer is the same as it's position in the list
-- 
2.43.0


From 7bd1420a01a262719b2b30939e63341c35be6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 20/81] fix: reject the non uniform strides, dilations and
 kernels, ceil_mode and count_include_pad of ONNX nodes instead of ignoring
 them

---
 .../importers/ONNX_importer/create_layer.py   | 46 +++++++++++++++----
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index f76eed8..05ade05 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -184,6 +184,32 @@ def find_size(output_shape: list) -> int:
     return size
 
 
+def get_uniform_value(
+    name: str,
+    values: list[int],
+    node: onnx.NodeProto,
+) -> int:
+    """Return the value of an attribute which must be the same for all dimensions."""
+    if any(value != values[0] for value in values):
+        msg = f"Error: {name} {list(values)} in {node.op_type} not supported"
+        raise ValueError(msg)
+    return values[0]
+
+
+def check_pooling_attributes(
+    attributes: dict[str, Any],
+    node: onnx.NodeProto,
+) -> None:
+    """Reject the pooling attributes without implementation."""
+    if any(dilation != 1 for dilation in attributes["dilations"]):
+        msg = f"Error: dilations in {node.op_type} not supported"
+        raise ValueError(msg)
+    for name in ["ceil_mode", "count_include_pad", "storage_order"]:
+        if attributes.get(name, 0) != 0:
+            msg = f"Error: {name} in {node.op_type} not supported"
+            raise ValueError(msg)
+
+
 ###### Functions to create a Layer ######
 
 
@@ -310,10 +336,12 @@ def create_conv(
         idx=idx,
         size=size,
         padding=attributes["auto_pad"],
-        strides=attributes["strides"][0],
-        kernel_h=attributes["kernel_shape"][0],
-        kernel_w=attributes["kernel_shape"][1],
-        dilation_rate=attributes["dilations"][0],
+        strides=get_uniform_value("strides", attributes["strides"], node),
+        kernel_h=weights.shape[2],
+        kernel_w=weights.shape[3],
+        dilation_rate=get_uniform_value(
+            "dilations", attributes["dilations"], node,
+        ),
         nb_filters=initializers[0].dims[0],
         input_shape=input_shape,
         output_shape=output_shape,
@@ -1101,13 +1129,14 @@ def create_max_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_pooling_attributes(attributes, node)
     return MaxPooling2D(
         original_name=node.name,
         idx=idx,
         size=size,
         padding=attributes["auto_pad"],
-        strides=attributes["strides"][0],
-        pool_size=attributes["kernel_shape"][0],
+        strides=get_uniform_value("strides", attributes["strides"], node),
+        pool_size=get_uniform_value("kernel_shape", attributes["kernel_shape"], node),
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
@@ -1140,13 +1169,14 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_pooling_attributes(attributes, node)
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
         size=size,
         padding=attributes["auto_pad"],
-        strides=attributes["strides"][0],
-        pool_size=attributes["kernel_shape"][0],
+        strides=get_uniform_value("strides", attributes["strides"], node),
+        pool_size=get_uniform_value("kernel_shape", attributes["kernel_shape"], node),
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From 8d605d04f11c225d1f3b46c305aada64af0df580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 21/81] fix: broadcast the channels of the operands of MatMul
 in the C code

---
 src/acetone_nnet/generator/layers/matmul/MatMul.py        | 5 ++++-
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 4 ++++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMul.py b/src/acetone_nnet/generator/layers/matmul/MatMul.py
index e72904a..d9ce0ca 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMul.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMul.py
@@ -50,7 +50,7 @@ class MatMul(Layer):
         self.local_var = "dotproduct"
         self.input_shapes = input_shapes
 
-        self.output_channels = self.input_shapes[0][1]
+        self.output_channels = max(self.input_shapes[0][1], self.input_shapes[1][1])
         self.output_height = self.input_shapes[0][-2]
         self.output_width = self.input_shapes[1][-1]
         self.shared_dimension = self.input_shapes[0][-1]
@@ -60,6 +60,9 @@ class MatMul(Layer):
         if self.input_shapes[1][-2] != self.input_shapes[0][-1]:
             msg = f"Error: non consistency between weight shape and input shape in MatMul ({self.input_shapes[1][-2]}!={self.input_shapes[0][-1]})"
             msg += "\n"
+        if any(shape[1] not in (1, self.output_channels) for shape in self.input_shapes):
+            msg = f"Error: channels not broadcastable in MatMul ({self.input_shapes[0][1]} and {self.input_shapes[1][1]})"
+            msg += "\n"
         if (
             self.size
             != self.input_shapes[1][-1]
diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..3f5c2bc 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -53,6 +53,10 @@ class MatMulDefault(MatMul):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
+        # An operand with a single channel is shared by all the output channels
+        mustach_hash["channel_left"] = "f" if self.input_shapes[0][1] > 1 else "0"
+        mustach_hash["channel_right"] = "f" if self.input_shapes[1][1] > 1 else "0"
+
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..384b48e 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From 6ac271645425ede4d6000b1fc7fbb07ea78ee0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 22/81] fix: compute Softmax without overflowing the
 exponentials

---
 .../generator/layers/softmax/Softmax.py       |  4 ++-
 .../layers/softmax/SoftmaxDefault.py          | 12 ++-----
 src/acetone_nnet/generator/neural_network.py  |  2 +-
 .../templates/layers/template_Softmax.c.tpl   | 32 +++++++++++--------
 4 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bbadc10..68a71cf 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -107,5 +107,7 @@ class Softmax(Layer):
             input_array = input_array.flatten()
             self.axis = -1
 
-        exp = np.exp(input_array, dtype=float)
+        # The largest exponent is 0, to never overflow
+        maximum = np.max(input_array, keepdims=True, axis=self.axis)
+        exp = np.exp(input_array - maximum, dtype=float)
         return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 876ab11..27185b3 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -60,25 +60,19 @@ class SoftmaxDefault(Softmax):
                 mustach_hash["sum_dimension_1"] = self.output_height
                 mustach_hash["sum_dimension_2"] = self.output_width
                 mustach_hash["reduced_dimension"] = self.output_channels
-                mustach_hash["reduced_position_1"] = f"i + {self.output_width}*f"
-                mustach_hash["reduced_position_2"] = f"i + {self.output_width}*(f + {self.output_height}*j)"
-                mustach_hash["softmax_indice"] = f"j + {self.output_width}*i"
+                mustach_hash["reduced_position"] = f"i + {self.output_width}*(f + {self.output_height}*j)"
 
             elif self.axis == 2:
                 mustach_hash["sum_dimension_1"] = self.output_channels
                 mustach_hash["sum_dimension_2"] = self.output_width
                 mustach_hash["reduced_dimension"] = self.output_height
-                mustach_hash["reduced_position_1"] = f"i + {self.output_width}*f"
-                mustach_hash["reduced_position_2"] = f"i + {self.output_width}*(j + {self.output_height}*f)"
-                mustach_hash["softmax_indice"] = f"j + {self.output_width}*f"
+                mustach_hash["reduced_position"] = f"i + {self.output_width}*(j + {self.output_height}*f)"
 
             elif self.axis == 3:
                 mustach_hash["sum_dimension_1"] = self.output_channels
                 mustach_hash["sum_dimension_2"] = self.output_height
                 mustach_hash["reduced_dimension"] = self.output_width
-                mustach_hash["reduced_position_1"] = f"i + {self.output_height}*f"
-                mustach_hash["reduced_position_2"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
-                mustach_hash["softmax_indice"] = f"i + {self.output_height}*f"
+                mustach_hash["reduced_position"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
 
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->output_{self.path}[j]")
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 8e76720..26bf810 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -866,7 +866,7 @@ class CodeGenerator(ABC):
         ):
             mustach_hash["is_sum"] = True
 
-        if any(isinstance(i, MaxPooling2D) for i in self.layers):
+        if any(isinstance(i, MaxPooling2D | Softmax) for i in self.layers):
             mustach_hash["is_max"] = True
 
         if any(isinstance(i, AveragePooling2D) for i in self.layers):
diff --git a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
index 3715fc7..268a6f7 100644
--- a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
@@ -1,11 +1,17 @@
     // {{name}}_{{idx}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {{#1D}}
+    max = ctx->{{output_str}}[0];
+    for (i = 1; i < {{size}}; ++i)
+    {
+        if (ctx->{{output_str}}[i] > max)
+            max = ctx->{{output_str}}[i];
+    }
     sum = 0;
     for (i = 0; i < {{size}}; ++i)
-        sum += exp(ctx->{{output_str}}[i]);
+        sum += exp(ctx->{{output_str}}[i] - max);
     for (j = 0; j < {{size}}; ++j)
     {
-        ctx->output_{{road}}[j] = exp(ctx->{{output_str}}[j])/sum;
+        ctx->output_{{road}}[j] = exp(ctx->{{output_str}}[j] - max)/sum;
         ctx->output_{{road}}[j] = {{{activation_function}}};
     }
     {{/1D}}
@@ -14,21 +20,21 @@
     {
         for (i = 0; i < {{sum_dimension_2}}; ++i)
         {
-            ctx->tensor_temp[{{reduced_position_1}}] = 0;
+            j = 0;
+            max = ctx->{{output_str}}[{{reduced_position}}];
+            for (j = 1; j < {{reduced_dimension}}; ++j)
+            {
+                if (ctx->{{output_str}}[{{reduced_position}}] > max)
+                    max = ctx->{{output_str}}[{{reduced_position}}];
+            }
+            sum = 0;
             for (j = 0; j < {{reduced_dimension}}; ++j)
             {
-                ctx->tensor_temp[{{reduced_position_1}}] += exp(ctx->{{output_str}}[{{reduced_position_2}}]);
+                sum += exp(ctx->{{output_str}}[{{reduced_position}}] - max);
             }
-        }
-    }
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for (j = 0; j < {{output_width}}; ++j)
+            for (j = 0; j < {{reduced_dimension}}; ++j)
             {
-                ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = exp(ctx->{{output_str}}[j + {{output_width}}*(i +  {{output_height}}*f)])/ctx->tensor_temp[{{softmax_indice}}];
+                ctx->output_{{road}}[{{reduced_position}}] = exp(ctx->{{output_str}}[{{reduced_position}}] - max)/sum;
             }
         }
     }
-- 
2.43.0


From fc5f1e4caa15ef58567852674143c0fc60f07dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 23/81] fix: free the buffer of an output used several times by
 a layer only once

---
 src/acetone_nnet/graph/graph_interpretor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..30444b8 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -90,7 +90,8 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        # (only once for an output used several times by the layer)
+        for p in {p.idx: p for p in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -116,7 +117,8 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        # (only once for an output used several times by the layer)
+        for parent in {p.idx: p for p in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 947a335a241ca787525fcfce9fc69d07f189f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 24/81] fix: keep indices, buffers and shared constants
 consistent when fusing layers, do not fuse activations into layers ignoring
 them

---
 src/acetone_nnet/generator/neural_network.py  |  3 ++
 src/acetone_nnet/graph/graph_interpretor.py   |  9 +++++
 src/acetone_nnet/pattern_matching/Pattern.py  | 38 +++++++++----------
 .../patterns/FuseActivationLayers.py          | 20 ++++++++--
 .../patterns/FuseConvBatchNorm.py             | 13 ++++---
 .../patterns/FuseMatMulAdd.py                 |  5 ++-
 .../patterns/FuseSigmoidMul.py                |  5 ++-
 7 files changed, 60 insertions(+), 33 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 26bf810..7c40b5d 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -46,6 +46,7 @@ else:
 from typing_extensions import Self
 
 from acetone_nnet import templates
+from acetone_nnet.graph.graph_interpretor import allocate_outputs
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
@@ -159,6 +160,8 @@ class CodeGenerator(ABC):
         
         if self.optimization:
             self.layers, self.log = pattern_matcher.match(self.layers, self.dict_cst)
+            # The liveness of the outputs changed: allocate the buffers again
+            self.maxpath, self.dict_cst = allocate_outputs(self.layers)
 
         if self.log:
             logging.info(f"Pattern Matching:\n {self.log}")
diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 30444b8..dbcfb95 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -55,6 +55,15 @@ def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
     return sorted_layers, max_path, dict_cst
 
 
+def allocate_outputs(sorted_layers: list[Layer]) -> tuple[int, dict[int, int]]:
+    """Allocate the buffers storing the output of each (topologically sorted) layer."""
+    assign_liveliness_index(sorted_layers)
+    dict_cst = assign_cst(sorted_layers)
+    for layer in sorted_layers:
+        layer.find_output_str(dict_cst)
+    return max(i.path for i in sorted_layers) + 1, dict_cst
+
+
 def parcours_prof_topo(
     sorted_layers: list[Layer],
     layer: Layer,
diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..3ee51f9 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -52,29 +52,27 @@ class Pattern(ABC):
         """Apply the pattern to the layer."""
 
 def update_indices(
-        index: int,
+        removed_layer: Layer,
         layers: list[Layer],
-        shift: int,
         dict_cst: dict[int,int],
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
-    nb_layers = len(layers)
-    ref = layers[index].idx
-
-    if index >= nb_layers:
-        m = f"Index out of bound ({index} > {nb_layers})"
-        raise ValueError(m)
-    if shift > index:
-        m = f"Shift can't superior to the index ({shift} > {index})"
-        raise ValueError(m)
-
-    for i in range(nb_layers):
-        if layers[i].idx > ref:
-            cst_index = dict_cst.get(layers[i].idx, None)
-            if cst_index is not None:
-                dict_cst.pop(layers[i].idx)
-                dict_cst[layers[i].idx - shift] = cst_index
-            layers[i].idx = layers[i].idx - shift
+    """Update the indices of the layers following removed_layer once it is removed."""
+    ref = removed_layer.idx
+    shifted_cst = {
+        (idx - 1 if idx > ref else idx): cst
+        for idx, cst in dict_cst.items()
+        if idx != ref
+    }
+    dict_cst.clear()
+    dict_cst.update(shifted_cst)
+
+    for layer in layers:
+        if layer.idx > ref:
+            layer.idx -= 1
+
+def remove_layer(removed_layer: Layer, layers: list[Layer]) -> None:
+    """Remove a layer from the list of layers."""
+    layers[:] = [layer for layer in layers if layer is not removed_layer]
 
 def update_next_layers(removed_layer: Layer, replacement_layer:Layer) -> None:
     """Link the layers in removed_layer.next_layer to the replacement_layer as input."""
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..462f929 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,10 +21,18 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import (
+    LSTM,
+    ActivationLayer,
+    ConstantLayer,
+    Flatten,
+    InputLayer,
+    Softmax,
+)
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
+    remove_layer,
     update_dict_cst,
     update_indices,
     update_next_layers,
@@ -32,6 +40,10 @@ from acetone_nnet.pattern_matching.Pattern import (
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 
 
+# Layers whose generated code does not apply an activation function to their output
+NOT_FUSABLE = (InputLayer, ConstantLayer, Flatten, Softmax, LSTM)
+
+
 class FuseActivationLayer(Pattern):
     """Fusing Activation layer to the previous one pattern class."""
 
@@ -58,6 +70,8 @@ class FuseActivationLayer(Pattern):
             return False
         if isinstance(layer.previous_layer[0], ActivationLayer):
             return False
+        if isinstance(layer.previous_layer[0], NOT_FUSABLE):
+            return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
@@ -85,8 +99,8 @@ class FuseActivationLayer(Pattern):
         layer.original_name += f" fused with {activation_layer.original_name}"
 
         # Updating the list of layers
-        layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        remove_layer(activation_layer, layers)
+        update_indices(activation_layer, layers, dict_cst)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..973b57e 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -27,6 +27,7 @@ from acetone_nnet.generator.layers import BatchNormalization, Conv2D
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
+    remove_layer,
     update_dict_cst,
     update_indices,
     update_next_layers,
@@ -75,11 +76,11 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = conv.weights.copy()
+        biases = conv.biases.copy()
 
         scale = batch_norm.scale
         bias = batch_norm.biases
@@ -103,9 +104,9 @@ class FuseConvBatchNorm(Pattern):
         conv.original_name += f" fused with {batch_norm.original_name}"
 
         # Updating the list of layers
-        layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        remove_layer(batch_norm, layers)
+        update_indices(batch_norm, layers, dict_cst)
 
-        return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
+        return self.pattern.format(conv.idx, batch_norm.idx), layers.index(conv)
 
 pattern_matcher.register_pattern(FuseConvBatchNorm())
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..f2ec16a 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -26,6 +26,7 @@ from acetone_nnet.generator.layers import Add, Dense, MatMul
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
+    remove_layer,
     update_dict_cst,
     update_indices,
     update_next_layers,
@@ -116,8 +117,8 @@ class MatMulAddToDense(Pattern):
 
         # Updating the list of layers
         layers[index] = dense
-        layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        remove_layer(add, layers)
+        update_indices(add, layers, dict_cst)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..af8750b 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -25,6 +25,7 @@ from acetone_nnet.generator.layers import ActivationLayer, Multiply
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
+    remove_layer,
     update_dict_cst,
     update_indices,
     update_next_layers,
@@ -117,8 +118,8 @@ class SigmoidMultiplyToSilu(Pattern):
         update_dict_cst(multiply, silu, dict_cst)
         # Updating the list of layers
         layers[index] = silu
-        layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
+        remove_layer(multiply, layers)
+        update_indices(multiply, layers, dict_cst)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 822e570464b76b7e45de3163e17aec4b779cb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 25/81] fix: interpolate between the right neighbours, clamp
 indices and honour the optional inputs and the axes of ONNX Resize

---
 .../generator/layers/resize/Resize.py         | 81 +++++++++++--------
 .../layers/resize/resize_cubic/ResizeCubic.py | 10 ++-
 .../resize/resize_cubic/ResizeCubicDefault.py | 29 +++----
 .../resize/resize_linear/ResizeLinear.py      | 10 ++-
 .../resize_linear/ResizeLinearDefault.py      | 38 +++------
 .../resize/resize_nearest/ResizeNearest.py    |  9 ++-
 .../resize_nearest/ResizeNearestDefault.py    |  3 +
 src/acetone_nnet/generator/neural_network.py  |  1 +
 .../importers/ONNX_importer/create_layer.py   | 37 ++++++---
 .../Resize/template_ResizeCubic1D.c.tpl       | 29 -------
 .../Resize/template_ResizeLinear1D.c.tpl      | 26 ------
 .../Resize/template_ResizeNearest.c.tpl       |  2 +
 .../templates/template_source_file.c.tpl      | 24 +++---
 13 files changed, 132 insertions(+), 167 deletions(-)
 delete mode 100644 src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
 delete mode 100644 src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..0dbdbd4 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -56,6 +56,7 @@ class Resize(Layer):
             extrapolation_value: float = 0.,
             nearest_mode: str = "round_prefer_floor",
             cubic_coeff_a: float = -0.75,
+            output_shape: np.ndarray | list | None = None,
     ) -> None:
         """Instantiate a Resize base layer."""
         super().__init__()
@@ -105,10 +106,14 @@ class Resize(Layer):
         self.input_width = input_shape[3]
         self.scale = [1., 0., 0., 0.]
         if boolean_resize:
-            self.scale = target_size
-            self.output_channels = int(self.input_channels * target_size[1])  # should be equal to input_channels
-            self.output_height = int(self.input_height * target_size[2])
-            self.output_width = int(self.input_width * target_size[3])
+            self.scale = [float(scale) for scale in target_size]
+            if output_shape is None:
+                output_shape = [
+                    int(dim * scale) for dim, scale in zip(input_shape, self.scale, strict=True)
+                ]
+            self.output_channels = int(output_shape[1])  # should be equal to input_channels
+            self.output_height = int(output_shape[2])
+            self.output_width = int(output_shape[3])
         else:
             self.output_channels = int(target_size[1])  # should be equal to input_channels
             self.output_height = int(target_size[2])
@@ -161,7 +166,7 @@ class Resize(Layer):
         msg = ""
         if self.size != self.output_channels * self.output_height * self.output_width:
             msg += ("Error: size value in Resize "
-                    "({self.size}!={self.output_channels * self.output_height * self.output_width})")
+                    f"({self.size}!={self.output_channels * self.output_height * self.output_width})")
             msg += "\n"
         if self.coordinate_transformation_mode not in ["half_pixel",
                                                        "half_pixel_symmetric",
@@ -172,22 +177,27 @@ class Resize(Layer):
             msg += (f"Error: coordinate transformation mode value in Resize "
                     f"({self.coordinate_transformation_mode})")
             msg += "\n"
-        if self.keep_aspect_ratio_policy not in ["stretch",
-                                                 "not_larger",
-                                                 "not_smaller"]:
-            msg += (f"Error: keep aspect ratio policy value in Resize "
+        if self.output_channels != self.input_channels:
+            msg += (f"Error: the channels can't be resized in Resize "
+                    f"({self.output_channels}!={self.input_channels})")
+            msg += "\n"
+        if self.coordinate_transformation_mode == "tf_crop_and_resize":
+            msg += "Error: tf_crop_and_resize not implemented in Resize"
+            msg += "\n"
+        if self.keep_aspect_ratio_policy != "stretch":
+            msg += (f"Error: keep aspect ratio policy value not implemented in Resize "
                     f"({self.keep_aspect_ratio_policy})")
             msg += "\n"
-        if self.exclude_outside not in [0, 1]:
-            msg += f"Error: exclude outside value in Resize ({self.exclude_outside})"
+        if self.exclude_outside != 0:
+            msg += f"Error: exclude outside value not implemented in Resize ({self.exclude_outside})"
             msg += "\n"
         for axe in self.axes:
             if axe < 0 or axe >= 4:
                 msg += (f"Error: axe out of bound in Resize "
                         f"({axe} for tensor in 4 dimension with first dimension unused)")
                 msg += "\n"
-        if self.roi:
-            if self.axes:
+        if len(self.roi):
+            if len(self.axes):
                 if len(self.roi) != 2 * len(self.axes):
                     msg += (f"Error: non consistency between the number of roi and the axes given in Resize"
                             f"({len(self.roi)}!={len(self.axes)})")
@@ -242,19 +252,26 @@ class Resize(Layer):
             coord_original: str,
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
-        if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
+        offset = self.half_pixel_symmetric_offset(coord_dim)
+        return (f"{coord_original} = {offset} + ({coord_resized} + 0.5)"
+                f"/{self.scale[coord_dim]} - 0.5;")
+
+    def half_pixel_symmetric_offset(
+            self: Self,
+            coordinate_dimension: int,
+    ) -> float:
+        """Compute the offset of the half-pixel-symmetric coordinate transformation."""
+        if coordinate_dimension == 2:
+            output_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            output_length = self.output_width
             input_length = self.input_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        target_length = input_length * self.scale[coordinate_dimension]
+        adjustment = output_length / target_length
+        center = input_length / 2
+        return center * (1 - adjustment)
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -262,16 +279,7 @@ class Resize(Layer):
             coordinate_dimension: int,
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
-        if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
-            input_length = self.input_height
-        else:
-            target_length = self.output_width * self.scale[3]
-            input_length = self.input_width
-
-        adjustment = int(target_length) / target_length
-        center = input_length / 2
-        offset = center * (1 - adjustment)
+        offset = self.half_pixel_symmetric_offset(coordinate_dimension)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
 
     def pytorch_half_pixel(
@@ -319,9 +327,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        return (f"{coord_original} = {coord_resized}*({length_original} - 1.)"
+                f"/({length_resized} - 1.);")
 
     def align_corners_implem(
             self: Self,
@@ -336,6 +345,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..227ec0b 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -37,8 +37,7 @@ class ResizeCubic(Resize):
         super().__init__(**kwargs)
         self.name = "ResizeCubic"
         self.mode = "cubic"
-        self.template_dict = {"1D": self.template_path / "layers" / "Resize" / "template_ResizeCubic1D.c.tpl",
-                              "2D": self.template_path / "layers" / "Resize" / "template_ResizeCubic2D.c.tpl"}
+        self.template_dict = {"2D": self.template_path / "layers" / "Resize" / "template_ResizeCubic2D.c.tpl"}
 
         ####### Checking the instantiation#######
 
@@ -78,7 +77,10 @@ class ResizeCubic(Resize):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
-        output = np.zeros((self.output_channels, self.output_height, self.output_width))
+        output = np.zeros(
+            (self.output_channels, self.output_height, self.output_width),
+            dtype=input_array.dtype,
+        )
         for f in range(self.output_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
@@ -99,7 +101,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index cf27bbd..7f5233e 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -59,26 +59,14 @@ class ResizeCubicDefault(ResizeCubic):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_dict["2D"]) as template_file:
             template = template_file.read()
         template_file.close()
 
@@ -103,6 +91,7 @@ def resize_cubic_default_implementation(
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
         boolean_resize=True,
         target_size=old_layer.scale,
+        output_shape=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..66018f5 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -36,8 +36,7 @@ class ResizeLinear(Resize):
         super().__init__(**kwargs)
         self.name = "ResizeLinear"
         self.mode = "linear"
-        self.template_dict = {"1D": self.template_path / "layers" / "Resize" / "template_ResizeLinear1D.c.tpl",
-                              "2D": self.template_path / "layers" / "Resize" / "template_ResizeLinear2D.c.tpl"}
+        self.template_dict = {"2D": self.template_path / "layers" / "Resize" / "template_ResizeLinear2D.c.tpl"}
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
@@ -49,7 +48,10 @@ class ResizeLinear(Resize):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
-        output = np.zeros((self.output_channels, self.output_height, self.output_width))
+        output = np.zeros(
+            (self.output_channels, self.output_height, self.output_width),
+            dtype=input_array.dtype,
+        )
         for f in range(self.output_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
@@ -73,4 +75,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 748ed76..e1236d5 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -37,8 +37,7 @@ class ResizeLinearDefault(ResizeLinear):
         self.name = "ResizeLinear"
         self.mode = "linear"
         self.version = version
-        self.template_dict = {"1D": self.template_path / "layers" / "Resize" / "template_ResizeLinear1D.c.tpl",
-                              "2D": self.template_path / "layers" / "Resize" / "template_ResizeLinear2D.c.tpl"}
+        self.template_dict = {"2D": self.template_path / "layers" / "Resize" / "template_ResizeLinear2D.c.tpl"}
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
@@ -61,30 +60,16 @@ class ResizeLinearDefault(ResizeLinear):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["len_dimension"] = self.input_width - 1
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["len_dimension"] = self.input_height - 1
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["len_height"] = self.input_height - 1
-            mustach_hash["len_width"] = self.input_width - 1
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_dict["2D"]) as template_file:
             template = template_file.read()
         template_file.close()
 
@@ -108,6 +93,7 @@ def resize_linear_default_implementation(
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
         boolean_resize=True,
         target_size=old_layer.scale,
+        output_shape=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..143b940 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -79,14 +79,19 @@ class ResizeNearest(Resize):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
-        output = np.zeros((self.output_channels, self.output_height, self.output_width))
+        output = np.zeros(
+            (self.output_channels, self.output_height, self.output_width),
+            dtype=input_array.dtype,
+        )
         for f in range(self.output_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     x = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](i, 2)
                     x0 = self.nearest_mode_implem_mapping[self.nearest_mode](x)
+                    x0 = max(0, min(self.input_height - 1, x0))
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
+                    y0 = max(0, min(self.input_width - 1, y0))
 
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..9f4304c 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -74,6 +74,8 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
+        mustach_hash["last_row"] = self.input_height - 1
+        mustach_hash["last_column"] = self.input_width - 1
         mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
             self.coordinate_transformation_mode]("i", 2, "x")
         mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
@@ -105,6 +107,7 @@ def resize_nearest_default_implementation(
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
         boolean_resize=True,
         target_size=old_layer.scale,
+        output_shape=[1, old_layer.output_channels, old_layer.output_height, old_layer.output_width],
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 7c40b5d..8cc760a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -880,6 +880,7 @@ class CodeGenerator(ABC):
             for i in self.layers
         ):
             mustach_hash["is_resize"] = True
+            mustach_hash["coordinate_type"] = "double" if self.data_type == "double" else "float"
 
         if any(isinstance(layer, ResizeCubic) for layer in self.layers):
             mustach_hash["is_cubic_interpolation"] = True
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 05ade05..a9f7d63 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -395,9 +395,10 @@ def resize_set_default_attributes_values(
         attributes["axes"] = []
     else:
         for i in range(len(attributes["axes"])):
-            axe = attributes["axes"][i]
-            if axe < 0:
-                axe = len(input_shape) - axe
+            if attributes["axes"][i] < 0:
+                attributes["axes"][i] += len(input_shape)
+    if "mode" not in attributes:
+        attributes["mode"] = b"nearest"
     if "coordinate_transformation_mode" not in attributes:
         attributes["coordinate_transformation_mode"] = "half_pixel"
     if "exclude_outside" not in attributes:
@@ -434,16 +435,33 @@ def create_resize(
     attributes = extract_attributes(node)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
 
-    if initializers[2]:
+    if attributes.get("antialias", 0):
+        msg = "Error: antialias not implemented in Resize"
+        raise ValueError(msg)
+
+    # roi, scales and sizes are all optional
+    roi, scales, sizes = (
+        onnx.numpy_helper.to_array(initializers[i])
+        if i < len(initializers) and initializers[i]
+        else []
+        for i in range(3)
+    )
+    axes = attributes["axes"]
+    if len(sizes):
         # target size
-        targ_size = onnx.numpy_helper.to_array(initializers[2])
+        targ_size = list(input_shape)
+        given = sizes
         bool_resize = 0
-    else:
+    elif len(scales):
         # scale
-        targ_size = onnx.numpy_helper.to_array(initializers[1])
+        targ_size = [1.0] * len(input_shape)
+        given = scales
         bool_resize = 1
-
-    roi = onnx.numpy_helper.to_array(initializers[0]) if initializers[0] else []
+    else:
+        msg = "Error: neither constant scales nor sizes in Resize"
+        raise ValueError(msg)
+    for axis, value in zip(axes or range(len(input_shape)), given, strict=True):
+        targ_size[axis] = value
 
     return create_resize_obj(
         mode=attributes["mode"],
@@ -457,6 +475,7 @@ def create_resize(
         keep_aspect_ratio_policy=attributes["keep_aspect_ratio_policy"],
         target_size=targ_size,
         boolean_resize=bool_resize,
+        output_shape=output_shape,
         roi=roi,
         extrapolation_value=attributes["extrapolation_value"],
         nearest_mode=attributes["nearest_mode"],
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
deleted file mode 100644
index b7b7e4f..0000000
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
+++ /dev/null
@@ -1,29 +0,0 @@
-    // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    a = {{cubic_coeff_a}};
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for(j = 0; j < {{output_width}}; ++j)
-            {
-                {{{coordinate_transformation_mode}}}
-                x0 = floor(x);
-
-                f_1 = x0-1 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0-1 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0-1 + {{dimension}}*f];
-                f0 = x0 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0 + {{dimension}}*f];
-                f1 = x0+1 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0+1 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0+1 + {{dimension}}*f];
-                f2 = x0+ 2 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0+2 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0+2 + {{dimension}}*f];
-
-                s = x - x0;
-
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-            }
-        }
-    }
-
-    for(k = 0; k < {{size}}; ++k)
-    {
-        ctx->output_{{road}}[k] = ctx->tensor_temp[k];
-    }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
deleted file mode 100644
index 6fd876a..0000000
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ /dev/null
@@ -1,26 +0,0 @@
-    // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    x1 = {{len_dimension}};
-    x0 = 0;
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
-        f22 = ctx->{{output_str}}[x1 + {{dimension}}*f];
-
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for(j = 0; j < {{output_width}}; ++j)
-            {
-                {{{coordinate_transformation_mode}}}
-                x = x<x0 ? x0 : (x>x1 ? x1: x);
-
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = (f11*(x1 - x) + f22*(x - x0))/(x1 - x0);
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-            }
-        }
-    }
-
-    for(k = 0; k < {{size}}; ++k)
-    {
-        ctx->output_{{road}}[k] = ctx->tensor_temp[k];
-    }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..ad1194e 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0 < 0 ? 0 : (x0 > {{last_row}} ? {{last_row}} : x0);
+                y0 = y0 < 0 ? 0 : (y0 > {{last_column}} ? {{last_column}} : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..6e1cbcb 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -52,27 +52,27 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     int count;
 {{/is_count}}
 {{#is_resize}}
-    float x;
-    float y;
+    {{coordinate_type}} x;
+    {{coordinate_type}} y;
     int x0;
     int y0;
 {{/is_resize}}
 {{#is_cubic_interpolation}}
     int col_index;
-    float a;
-    float f_1;
-    float f0;
-    float f1;
-    float f2;
-    float s;
+    {{coordinate_type}} a;
+    {{coordinate_type}} f_1;
+    {{coordinate_type}} f0;
+    {{coordinate_type}} f1;
+    {{coordinate_type}} f2;
+    {{coordinate_type}} s;
 {{/is_cubic_interpolation}}
 {{#is_linear_interpolation}}
     int y1;
     int x1;
-    float f11;
-    float f12;
-    float f21;
-    float f22;
+    {{coordinate_type}} f11;
+    {{coordinate_type}} f12;
+    {{coordinate_type}} f21;
+    {{coordinate_type}} f22;
 {{/is_linear_interpolation}}
 {{#is_gather}}
     int position;
-- 
2.43.0


From 5a4c3750e850aae09724f60b82c9878579207203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 26/81] fix: do not take the initializers listed in the inputs
 of ONNX models for inputs of the network

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 8c772b9..102d2ca 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -86,7 +86,10 @@ def load_onnx(
     idx = 0
 
     # Creating and adding all the input layers to the list
-    for i in model.graph.input:
+    # (before IR version 4, the initializers are also listed in the inputs)
+    initializers = {i.name for i in model.graph.initializer}
+    inputs = [i for i in model.graph.input if i.name not in initializers]
+    for i in inputs:
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
@@ -146,7 +149,7 @@ def load_onnx(
             parent.next_layer.append(layer)
 
     data_type = onnx.helper.tensor_dtype_to_np_dtype(
-        model.graph.input[0].type.tensor_type.elem_type,
+        inputs[0].type.tensor_type.elem_type,
     )
 
     data_type, data_type_py = find_data_type(str(data_type))
-- 
2.43.0


From a78b21f5fdad114110f14d8adcace3f36acc6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 27/81] fix: convert the layout of outputs computed by
 activation layers

---
 src/acetone_nnet/generator/neural_network.py | 45 +++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 8cc760a..6318f7c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -48,12 +48,14 @@ from typing_extensions import Self
 from acetone_nnet import templates
 from acetone_nnet.graph.graph_interpretor import allocate_outputs
 from acetone_nnet.importers.parser import parser
+from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
 from acetone_nnet.quantize.activation import QuantizeShiftActivation
 from acetone_nnet.templates.template_makefile import TemplateMakefile
 from acetone_nnet.versioning.versioning import versioning
 from .layers import (
+    ActivationLayer,
     InputLayer,
     AveragePooling2D,
     BatchNormalization,
@@ -381,6 +383,17 @@ class CodeGenerator(ABC):
         """Return the input shape of the model."""
         return self.layers[0].input_shape
 
+    def get_output_dimensions(self: Self, layer: Layer) -> tuple[int, int, int] | None:
+        """Return the channels, height and width of the output of a layer, if any."""
+        # Activation layers keep the dimensions of their input
+        while isinstance(layer, ActivationLayer):
+            layer = layer.previous_layer[0]
+        if isinstance(layer, InputLayer) and len(layer.input_shape) == 4:
+            return tuple(layer.input_shape[1:])
+        if hasattr(layer, "output_channels"):
+            return layer.output_channels, layer.output_height, layer.output_width
+        return None
+
     def _initialise_dataset(
         self: Self,
         dataset_or_path: np.ndarray | str | Path | None,
@@ -565,9 +578,9 @@ class CodeGenerator(ABC):
                         if not isinstance(layer, ConstantLayer):
                             # Add the inference result of the layer to debug_output
                             debug_output.append(layer_output)
-                            if (self.data_format == "channels_last") and hasattr(
-                                layer,
-                                "output_channels",
+                            if (
+                                self.data_format == "channels_last"
+                                and self.get_output_dimensions(layer) is not None
                             ):
                                 debug_output[-1] = np.transpose(
                                     debug_output[-1],
@@ -580,9 +593,9 @@ class CodeGenerator(ABC):
                 nn_output = layer_output
 
                 # Write results in text files to compare prediction.
-                if (self.data_format == "channels_last") and hasattr(
-                    layer,
-                    "output_channels",
+                if (
+                    self.data_format == "channels_last"
+                    and self.get_output_dimensions(layer) is not None
                 ):
                     nn_output = np.transpose(nn_output, (1, 2, 0))
                 nn_output = np.reshape(nn_output, -1)
@@ -922,13 +935,12 @@ class CodeGenerator(ABC):
                 layer_hash["name"] = layer.name
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
-                if (self.data_format == "channels_last") and (
-                    hasattr(layer, "output_channels")
-                ):
+                dimensions = self.get_output_dimensions(layer)
+                if self.data_format == "channels_last" and dimensions is not None:
                     layer_hash["to_transpose"] = 1
-                    layer_hash["channels"] = layer.output_channels
-                    layer_hash["height"] = layer.output_height
-                    layer_hash["width"] = layer.output_width
+                    layer_hash["channels"] = dimensions[0]
+                    layer_hash["height"] = dimensions[1]
+                    layer_hash["width"] = dimensions[2]
 
             if self.debug_mode in ["time"]:
                 layer_hash["time"] = True
@@ -939,10 +951,11 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        if hasattr(self.layers[-1], "output_channels"):
-            output_hash["output_height"] = self.layers[-1].output_height
-            output_hash["output_width"] = self.layers[-1].output_width
-            output_hash["output_channels"] = self.layers[-1].output_channels
+        dimensions = self.get_output_dimensions(self.layers[-1])
+        if dimensions is not None:
+            output_hash["output_channels"] = dimensions[0]
+            output_hash["output_height"] = dimensions[1]
+            output_hash["output_width"] = dimensions[2]
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
-- 
2.43.0


From b75ceb7a5c6d3a53aff92355265a582c7693d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 28/81] fix: write the debug file from the context, record the
 layers and targets ACETONE computes in the order of the model

---
 src/acetone_nnet/debug/debug_onnx.py          | 39 ++++++++++++-------
 src/acetone_nnet/debug/debug_tools.py         |  2 +-
 src/acetone_nnet/generator/neural_network.py  |  4 ++
 .../templates/template_source_file.c.tpl      |  8 +++-
 4 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/acetone_nnet/debug/debug_onnx.py b/src/acetone_nnet/debug/debug_onnx.py
index 0a53e32..947cb1b 100644
--- a/src/acetone_nnet/debug/debug_onnx.py
+++ b/src/acetone_nnet/debug/debug_onnx.py
@@ -45,7 +45,8 @@ def extract_node_outputs(
 ) -> list[str]:
     """Get outputs name of layers of an ONNX model."""
     activation = ["Relu", "Tanh", "Sigmoid", "Clip", "Exp", "Log", "LeakyRelu"]
-    ignored = ["Dropout", "Reshape","Flatten"]
+    # Nodes without equivalent in ACETONE
+    ignored = ["Dropout", "Reshape", "Flatten", "Unsqueeze", "Constant", "LRN", "Shape"]
     outputs_name = []
     for node in model.graph.node:
         if optimized_model and (node.op_type in activation):
@@ -62,23 +63,24 @@ def extract_targets_indices(
         outputs_name: list[str],
 ) -> list[int]:
     """Extract the indices each layer will have in ACETONE."""
-    targets_indices = []
-    for name in outputs_name:
-        for i in range(len(model.graph.node)):
-            if model.graph.node[i].output[0] == name:
-                targets_indices.append(i)
-    return targets_indices
+    initializers = [ini.name for ini in model.graph.initializer]
+    # The first indices are the ones of the inputs, nodes ignored by ACETONE don't have one
+    nb_inputs = len([i for i in model.graph.input if i.name not in initializers])
+    indices = {name: nb_inputs + i for i, name in enumerate(extract_node_outputs(model))}
+    return [indices[name] for name in outputs_name if name in indices]
 
 
 def run_model_onnx(
         model: str | Path,
         dataset: np.ndarray,
+        outputs_name: list[str] | None = None,
 ) -> list[np.ndarray]:
     """Compute the inference of an ONNX model."""
     sess = rt.InferenceSession(model)
     input_name = sess.get_inputs()[0].name
-    onnx_result = sess.run(None, {input_name: dataset})
-    onnx_result.append(onnx_result.pop(0))
+    onnx_result = sess.run(outputs_name, {input_name: dataset})
+    if outputs_name is None:
+        onnx_result.append(onnx_result.pop(0))
 
     for i in range(len(onnx_result)):
         onnx_result[i] = onnx_result[i].ravel().flatten()
@@ -107,12 +109,21 @@ def debug_onnx(
         inter_layers = debug_target
         targets_indices = extract_targets_indices(model, inter_layers)
 
-    # Add an output after each name of inter_layers
+    # Add an output after each name of inter_layers, in the order of the nodes
     value_info_protos = []
+    outputs_name = []
     shape_info = onnx.shape_inference.infer_shapes(model)
-    for _idx, node in enumerate(shape_info.graph.value_info):
-        if node.name in inter_layers:
-            value_info_protos.append(node)
+    value_info = {info.name: info for info in shape_info.graph.value_info}
+    graph_output = model.graph.output[0].name
+    for node in model.graph.node:
+        name = node.output[0]
+        if name not in inter_layers:
+            continue
+        if name == graph_output:
+            outputs_name.append(name)
+        elif name in value_info:
+            outputs_name.append(name)
+            value_info_protos.append(value_info[name])
 
     model.graph.output.extend(value_info_protos)  # in inference stage, these tensor will be added to output dict.
 
@@ -128,6 +139,6 @@ def debug_onnx(
 
     # Model inference
     run_model = model if type(model) is str | Path else model.SerializeToString()
-    outputs = run_model_onnx(run_model, dataset)
+    outputs = run_model_onnx(run_model, dataset, outputs_name)
 
     return model, targets_indices, outputs
diff --git a/src/acetone_nnet/debug/debug_tools.py b/src/acetone_nnet/debug/debug_tools.py
index 71423d4..5873a5a 100644
--- a/src/acetone_nnet/debug/debug_tools.py
+++ b/src/acetone_nnet/debug/debug_tools.py
@@ -142,7 +142,7 @@ def extract_outputs_python(
     targets = []
     for indices in targets_indices:
         for i in range(len(result_python[1])):
-            if indices == int(result_python[1][i][-1]):
+            if indices == int(result_python[1][i].split(" ")[-1]):
                 outputs.append(result_python[0][i])
                 targets.append(result_python[1][i])
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 6318f7c..36da537 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -906,6 +906,10 @@ class CodeGenerator(ABC):
 
         if self.debug_mode in ["onnx", "keras"]:
             mustach_hash["debug_file"] = output_dir / "debug_file.txt"
+            if np.issubdtype(self.data_type_py, np.integer):
+                mustach_hash["debug_format"] = "%d"
+            else:
+                mustach_hash["debug_format"] = "%.17g" if self.data_type == "double" else "%.9g"
 
         if self.debug_mode in ["time"]:
             mustach_hash["time"] = True
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 6e1cbcb..f7136d4 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -17,7 +17,7 @@ unsigned long long int start, end, difference;
 
 int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{data_type}} nn_input[{{input_size}}]){
     {{#debug_file}}
-    FILE *fp = fopen("{{debug_file}}", "w+");
+    FILE *fp = fopen("{{{debug_file}}}", "w+");
 
     {{/debug_file}}
     {{#time}}
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"{{debug_format}} ", ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
@@ -130,5 +130,9 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+    {{#debug_file}}
+    fclose(fp);
+
+    {{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 3d4c791845cd83370cde10d6f4276ba1cc96767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 29/81] fix: convert the samples given as an array to the type
 of the network, count the samples read from a file

---
 src/acetone_nnet/generator/neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 36da537..5a57b8c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -416,10 +416,13 @@ class CodeGenerator(ABC):
                         dtype=self.data_type_py,
                     )
             case np.ndarray() as dataset:
-                d = dataset
+                # The layers and the binary files expect values of the type of the network
+                d = dataset.astype(self.data_type_py)
                 self.nb_tests = dataset.shape[0]
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
+                # The file may hold less samples than requested
+                self.nb_tests = len(d)
             case _:
                 raise ValueError
         return d
-- 
2.43.0


From f07f9ddc246f4171540b3b76ff0ed46c0660789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 30/81] fix: write a binary parameter file which objcopy
 accepts for networks without parameters

---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 5a57b8c..000deb8 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1191,6 +1191,9 @@ class CodeGenerator(ABC):
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
                 symtab[s].tofile(parameters_bin)
+            if not symtab:
+                # objcopy rejects empty files
+                parameters_bin.write("\0")
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From cee6afa53318ff23e163035bb613a01c3df2fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 31/81] fix: make the programs reading their samples from a
 file link, and read double precision

---
 src/acetone_nnet/generator/neural_network.py                | 6 +++++-
 src/acetone_nnet/templates/template_main_file.c.tpl         | 6 +++++-
 .../templates/template_test_dataset_header.c.tpl            | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 000deb8..215ed9a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -504,7 +504,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
@@ -719,6 +718,11 @@ class CodeGenerator(ABC):
                         "data_type": self.data_type,
                         "read_input": self.read_ext_input,
                         "verbose": self.verbose,
+                        "input_format": (
+                            "%d"
+                            if np.issubdtype(self.data_type_py, np.integer)
+                            else "%lf" if self.data_type == "double" else "%f"
+                        ),
                         "format": (
                             "%d"
                             if np.issubdtype(self.data_type_py, np.integer)
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..7d8be7f 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
@@ -29,7 +33,7 @@ int main(int argc, char** argv)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            fscanf(input_file, "{{input_format}}", &nn_test_inputs[i][j]);
         }
     }
     fclose(input_file);
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From a2f0313b33d80d31914471eb3bf0a11f14993768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 32/81] fix: write binary parameters with the type the program
 declares

---
 src/acetone_nnet/generator/neural_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 215ed9a..acbc28f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1194,7 +1194,9 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                # Apart from indices, the parameters are declared with the type of the network
+                dtype = np.int32 if s.startswith("ppatches_") else self.data_type_py
+                symtab[s].astype(dtype).tofile(parameters_bin)
             if not symtab:
                 # objcopy rejects empty files
                 parameters_bin.write("\0")
-- 
2.43.0


From ed963bb8b07525bab35e996cced1dc67cfa7222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 33/81] fix: normalize the inputs of NNET networks in a copy of
 the sample

---
 .../normalization/template_pre_processing.c.tpl          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..2414852 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,19 @@
     // pre-processing for the normalization
+    float normalized_input[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            normalized_input[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
-    
\ No newline at end of file
+    nn_input = normalized_input;
-- 
2.43.0


From 9e159a102bc9ffad8c659bb74193da0dd31c0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 34/81] fix: build JSON input layers, and wire JSON layers by
 their position in the file

---
 .../importers/JSON_importer/parser_JSON.py    | 45 ++++++++++---------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..460ec0d 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -113,20 +113,23 @@ def load_json(
     layers = []
 
     l_temp = InputLayer(
-        0,
-        model["config"]["layers"][0]["config"]["size"],
-        model["config"]["layers"][0]["config"]["input_shape"],
-        data_format,
+        original_name=model["config"]["layers"][0]["config"]["name"],
+        idx=0,
+        size=model["config"]["layers"][0]["config"]["size"],
+        input_shape=model["config"]["layers"][0]["config"]["input_shape"],
+        data_format=data_format,
     )
 
     layers.append(l_temp)
 
-    nb_softmax_layers = 0
+    # Layer computing the output of each layer of the file
+    # (the indices differ: some layers are skipped, some are added)
+    outputs = {0: l_temp}
 
-    for idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
+    for json_idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
         add_softmax_layer = False
 
-        idx += nb_softmax_layers
+        idx = len(layers)
 
         if (
             "activation" in layer["config"]
@@ -206,7 +209,7 @@ def load_json(
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -216,7 +219,7 @@ def load_json(
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -226,7 +229,7 @@ def load_json(
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -239,7 +242,7 @@ def load_json(
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
                 input_shapes=layer["config"]["input_shape"],
@@ -250,7 +253,7 @@ def load_json(
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -260,7 +263,7 @@ def load_json(
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -270,7 +273,7 @@ def load_json(
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -292,7 +295,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -302,9 +305,9 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
                 epsilon=layer["config"]["epsilon"],
@@ -320,21 +323,21 @@ def load_json(
             or "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
+            outputs[json_idx] = outputs[layer["config"]["prev_layer_idx"][0]]
             continue
 
         else:
             raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(outputs[i])
+            outputs[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
 
         # Separated method to generate softmax
         if add_softmax_layer:
-            nb_softmax_layers += 1
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
@@ -347,6 +350,8 @@ def load_json(
             l_temp = current_layer
             layers.append(current_layer)
 
+        outputs[json_idx] = l_temp
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From 41604edf70d349024246a3809378de0dfc484f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 35/81] fix: keep the values of JSON networks: shapes, axes,
 paddings, weights and reshapes

---
 src/acetone_nnet/generator/neural_network.py  |  16 +--
 .../importers/JSON_importer/parser_JSON.py    | 116 ++++++++++++------
 2 files changed, 90 insertions(+), 42 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index acbc28f..7b0be8c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -580,12 +580,13 @@ class CodeGenerator(ABC):
                         if not isinstance(layer, ConstantLayer):
                             # Add the inference result of the layer to debug_output
                             debug_output.append(layer_output)
+                            dimensions = self.get_output_dimensions(layer)
                             if (
                                 self.data_format == "channels_last"
-                                and self.get_output_dimensions(layer) is not None
+                                and dimensions is not None
                             ):
                                 debug_output[-1] = np.transpose(
-                                    debug_output[-1],
+                                    np.reshape(debug_output[-1], dimensions),
                                     (1, 2, 0),
                                 )
                             debug_output[-1] = debug_output[-1].flatten()
@@ -595,11 +596,12 @@ class CodeGenerator(ABC):
                 nn_output = layer_output
 
                 # Write results in text files to compare prediction.
-                if (
-                    self.data_format == "channels_last"
-                    and self.get_output_dimensions(layer) is not None
-                ):
-                    nn_output = np.transpose(nn_output, (1, 2, 0))
+                dimensions = self.get_output_dimensions(layer)
+                if self.data_format == "channels_last" and dimensions is not None:
+                    nn_output = np.transpose(
+                        np.reshape(nn_output, dimensions),
+                        (1, 2, 0),
+                    )
                 nn_output = np.reshape(nn_output, -1)
 
                 if self.normalize:
diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 460ec0d..1d01331 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -51,6 +51,7 @@ from acetone_nnet.generator import (
     Softmax,
     Subtract,
     TanH,
+    Transpose,
 )
 from acetone_nnet.graph import graph_interpretor
 from acetone_nnet.ir import Layer
@@ -88,6 +89,16 @@ def create_resize_obj(
     raise ValueError("Error: resize mode " + mode + " not implemented")
 
 
+def shape_4d(shape: list[int | None]) -> list[int]:
+    """Give the shape [1, channels, height, width] of a tensor or a vector."""
+    return [1, *shape[1:], *[1] * (4 - len(shape))]
+
+
+def shapes_4d(shapes: list[list[int | None]]) -> np.ndarray:
+    """Give the shapes of several tensors, as rows [1, channels, height, width]."""
+    return np.array([shape_4d(shape) for shape in shapes])
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -162,9 +173,10 @@ def load_json(
                 kernel_w=layer["config"]["kernel_size"][1],
                 dilation_rate=layer["config"]["dilation_rate"][0],
                 nb_filters=layer["config"]["filters"],
-                input_shape=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                input_shape=shape_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
+                # From (channels, height, width, filters)
+                weights=np.moveaxis(data_type_py(layer["weights"]), 3, 0),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
@@ -179,8 +191,8 @@ def load_json(
                 padding=layer["config"]["padding"],
                 strides=layer["config"]["strides"][0],
                 pool_size=layer["config"]["pool_size"][0],
-                input_shape=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shape=shape_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -192,8 +204,8 @@ def load_json(
                 padding=layer["config"]["padding"],
                 strides=layer["config"]["strides"][0],
                 pool_size=layer["config"]["pool_size"][0],
-                input_shape=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shape=shape_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -202,7 +214,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shape=layer["config"]["input_shape"],
+                input_shape=shape_4d(layer["config"]["input_shape"]),
                 data_format=data_format,
             )
 
@@ -211,8 +223,8 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=shapes_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -221,8 +233,8 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=shapes_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -231,22 +243,25 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=shapes_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Concatenate":
             axis = layer["config"]["axis"]
-            if data_format == "channels_last":
+            rank = len(layer["config"]["output_shape"])
+            if axis < 0:
+                axis += rank
+            if data_format == "channels_last" and rank == 4:
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=[shape_4d(shape) for shape in layer["config"]["input_shape"]],
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -255,8 +270,8 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=shapes_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -265,8 +280,8 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=shapes_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
@@ -275,23 +290,22 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
-                output_shape=layer["config"]["output_shape"],
+                input_shapes=shapes_4d(layer["config"]["input_shape"]),
+                output_shape=shape_4d(layer["config"]["output_shape"]),
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "ZeroPadding2D":
             pads = layer["config"]["padding"]
             if type(pads) is int:
-                pads = [pads for i in range(8)]
+                pads = [pads, pads]
+            if type(pads[0]) is int:
+                pad_top, pad_bottom = pads[0], pads[0]
+                pad_left, pad_right = pads[1], pads[1]
             else:
-                if type(pads[0]) is int:
-                    pad_top, pad_bottom = pads[0], pads[0]
-                    pad_left, pad_right = pads[1], pads[1]
-                else:
-                    pad_top, pad_bottom = pads[0][0], pads[0][1]
-                    pad_left, pad_right = pads[1][0], pads[1][1]
-                pads = [0, 0, pad_top, pad_left, 0, 0, pad_bottom, pad_right]
+                pad_top, pad_bottom = pads[0][0], pads[0][1]
+                pad_left, pad_right = pads[1][0], pads[1][1]
+            pads = [0, 0, pad_top, pad_left, 0, 0, pad_bottom, pad_right]
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
@@ -300,7 +314,7 @@ def load_json(
                 pads=pads,
                 constant_value=0,
                 axes=[],
-                input_shape=layer["config"]["input_shape"],
+                input_shape=shape_4d(layer["config"]["input_shape"]),
                 activation_function=Linear(),
             )
 
@@ -309,7 +323,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shape=layer["config"]["input_shape"],
+                input_shape=shape_4d(layer["config"]["input_shape"]),
                 epsilon=layer["config"]["epsilon"],
                 scale=np.array(data_type_py(layer["gamma"])),
                 biases=np.array(data_type_py(layer["beta"])),
@@ -318,6 +332,38 @@ def load_json(
                 activation_function=Linear(),
             )
 
+        elif layer["class_name"] == "Reshape" and data_format == "channels_last":
+            # The elements keep their order in the layout of the file
+            reshaped = outputs[layer["config"]["prev_layer_idx"][0]]
+            if len(layer["config"]["input_shape"]) == 4:
+                current_layer = Flatten(
+                    original_name=layer["config"]["name"],
+                    idx=len(layers),
+                    size=layer["config"]["size"],
+                    input_shape=shape_4d(layer["config"]["input_shape"]),
+                    data_format=data_format,
+                )
+                reshaped.next_layer.append(current_layer)
+                current_layer.previous_layer.append(reshaped)
+                layers.append(current_layer)
+                reshaped = current_layer
+            if len(layer["config"]["output_shape"]) == 4:
+                channels, height, width = layer["config"]["output_shape"][1:]
+                current_layer = Transpose(
+                    original_name=layer["config"]["name"],
+                    idx=len(layers),
+                    size=layer["config"]["size"],
+                    input_shape=[1, height, width, channels],
+                    perm=[0, 3, 1, 2],
+                    activation_function=Linear(),
+                )
+                reshaped.next_layer.append(current_layer)
+                current_layer.previous_layer.append(reshaped)
+                layers.append(current_layer)
+                reshaped = current_layer
+            outputs[json_idx] = reshaped
+            continue
+
         elif (
             "Normalization" in layer["class_name"]
             or "Dropout" in layer["class_name"]
@@ -342,8 +388,8 @@ def load_json(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
                 size=l_temp.size,
-                output_shape=layer["config"]["output_shape"],
-                axis=None,
+                output_shape=shape_4d(layer["config"]["output_shape"]),
+                axis=1,
             )
             l_temp.next_layer.append(current_layer)
             current_layer.previous_layer.append(l_temp)
-- 
2.43.0


From ebb76b23cd2a619a16e7273d8c7562abe1e6e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 36/81] fix: read the input of Flatten layers from the layer
 which computes it

---
 .../generator/layers/flatten/FlattenDefault.py       | 12 +++++++-----
 .../templates/layers/template_Flatten.c.tpl          |  9 ++++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
index a619314..3cbef6d 100644
--- a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
+++ b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
@@ -39,16 +39,18 @@ class FlattenDefault(Flatten):
         """Generate computation code for layer."""
         mustach_hash = {}
 
+        mustach_hash["name"] = self.name
+        mustach_hash["original_name"] = self.original_name
+        mustach_hash["idx"] = f"{self.idx:02d}"
+        mustach_hash["path"] = self.path
+        mustach_hash["size"] = self.size
+        mustach_hash["output_str"] = self.previous_layer[0].output_str
+
         if self.data_format == "channels_last":
             mustach_hash["channels_last"] = True
             mustach_hash["input_channels"] = self.input_shape[1]
             mustach_hash["input_height"] = self.input_shape[2]
             mustach_hash["input_width"] = self.input_shape[3]
-            mustach_hash["name"] = self.name
-            mustach_hash["original_name"] = self.original_name
-            mustach_hash["idx"] = f"{self.idx:02d}"
-            mustach_hash["path"] = self.path
-            mustach_hash["size"] = self.size
 
         with open(self.template_path / "layers" / "template_Flatten.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
index c0d2587..82dcd89 100644
--- a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
@@ -7,7 +7,7 @@
         {
             for (j = 0; j < {{input_width}};  ++j)
             {
-                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->output_{{path}}[(f*{{input_height}} + i)*{{input_width}} + j];
+                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->{{output_str}}[(f*{{input_height}} + i)*{{input_width}} + j];
             }
         }
     }
@@ -15,4 +15,11 @@
     {
         ctx->output_{{path}}[k] = ctx->tensor_temp[k];
     }
+{{/channels_last}}
+{{^channels_last}}
+    //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
+    for (k = 0; k < {{size}}; ++k)
+    {
+        ctx->output_{{path}}[k] = ctx->{{output_str}}[k];
+    }
 {{/channels_last}}
\ No newline at end of file
-- 
2.43.0


From 5676343dfbf2f277b8c6a07ae429aa14c4e09b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 37/81] fix: refuse the JSON layers and attributes which would
 be computed wrongly

---
 .../importers/JSON_importer/parser_JSON.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 1d01331..e0a3002 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -99,6 +99,19 @@ def shapes_4d(shapes: list[list[int | None]]) -> np.ndarray:
     return np.array([shape_4d(shape) for shape in shapes])
 
 
+def check_supported(layer: dict) -> None:
+    """Refuse the attributes which the layers cannot represent."""
+    config = layer["config"]
+    for attribute in ("strides", "pool_size", "dilation_rate"):
+        value = config.get(attribute)
+        if isinstance(value, list | tuple) and any(v != value[0] for v in value):
+            msg = f"Error: non uniform {attribute} not supported in layer {config['name']}"
+            raise ValueError(msg)
+    if config.get("groups", 1) != 1:
+        msg = f"Error: grouped convolution not supported in layer {config['name']}"
+        raise ValueError(msg)
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -138,6 +151,7 @@ def load_json(
     outputs = {0: l_temp}
 
     for json_idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
+        check_supported(layer)
         add_softmax_layer = False
 
         idx = len(layers)
@@ -364,11 +378,7 @@ def load_json(
             outputs[json_idx] = reshaped
             continue
 
-        elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
-            or layer["class_name"] == "Reshape"
-        ):
+        elif "Dropout" in layer["class_name"] or layer["class_name"] == "Reshape":
             outputs[json_idx] = outputs[layer["config"]["prev_layer_idx"][0]]
             continue
 
-- 
2.43.0


From 1ef4ccfb10df735221c01a56bd915b0f1ef8ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 38/81] fix: split any number of filters into blocks in the
 direct_block convolution

---
 .../generator/layers/convolution/Conv2Ddirect_block.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index b408d5d..b6eea4e 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -66,7 +66,8 @@ class Conv2Ddirect_block(Conv2D):
             msg = f"Error: group value in Conv2D ({self.group}), direct_block only supports dense and depthwise convolutions"
             raise ValueError(msg)
         #output channel block size for 3x3 <= 64, and for 1x1 <= 512
-        self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
+        block_max = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
+        self.block_k = max(k for k in range(1, block_max+1) if self.nb_filters%k==0)
         self.block_c = self.input_channels
         #winograd computes 2x2 tiles of the output
         self.even_output = self.output_height%2==0 and self.output_width%2==0
-- 
2.43.0


From 8e0316f1b3bd8e12deba0c52ada10892e907edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 39/81] fix: declare the buffers of batch_loop with the type of
 the network

---
 src/acetone_nnet/templates/template_train_hook_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..22c8202 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From 34a94503e5d537b7bf88c505c2ae98b00b4ccc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 40/81] fix: write the compiler and the flags of the Makefile
 without escaping them for HTML

---
 src/acetone_nnet/templates/template_makefile.tpl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/templates/template_makefile.tpl b/src/acetone_nnet/templates/template_makefile.tpl
index db22a0f..7dabb94 100644
--- a/src/acetone_nnet/templates/template_makefile.tpl
+++ b/src/acetone_nnet/templates/template_makefile.tpl
@@ -1,13 +1,13 @@
-CC = {{compiler}}
+CC = {{{compiler}}}
 
 CFLAGS =
 {{#compiler_flags}}
-CFLAGS += {{.}}
+CFLAGS += {{{.}}}
 {{/compiler_flags}}
 
 LDFLAGS =
 {{#linker_flags}}
-LDFLAGS += {{.}}
+LDFLAGS += {{{.}}}
 {{/linker_flags}}
 
 SRC =
-- 
2.43.0


From aadcc84fed37ef7688a9668018569fe36bf1a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 41/81] fix: print the decimal outputs of the C program with
 all their digits

---
 src/acetone_nnet/generator/neural_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 7b0be8c..37eaf28 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -728,7 +728,8 @@ class CodeGenerator(ABC):
                         "format": (
                             "%d"
                             if np.issubdtype(self.data_type_py, np.integer)
-                            else "%a" if self.to_hex else "%9g"
+                            else "%a" if self.to_hex
+                            else "%.17g" if self.data_type == "double" else "%.9g"
                         ),
                     },
                 ),
-- 
2.43.0


From 2193b124a7cffc9f0627509a43ac9c6d9b7259bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 42/81] fix: compare the requested inferences only, report NaN
 and missing values in acetone_compare

---
 src/acetone_nnet/cli/compare.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..87b7adc 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -46,6 +46,11 @@ def compare_floats(
     return False, diff, rel_diff
 
 
+def worst(diff: float, max_diff: float) -> float:
+    """Return the largest of two differences, a NaN being the worst one."""
+    return diff if diff != diff or diff > max_diff else max_diff
+
+
 def preprocess_line(line: str, precision: str) -> list:
     """Cast a list of str to a list of float."""
     values: list = [float.fromhex(x) for x in line.split(" ") if x.strip()]
@@ -67,13 +72,16 @@ def compare_lines(
     max_diff = 0.0
     max_rel_diff = 0.0
     length = len(values_f1)
+    if len(values_f2) != length:
+        msg = f"Lines of {length} and {len(values_f2)} values cannot be compared."
+        raise ValueError(msg)
     line_comparison = True
 
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
-        max_diff = max(diff, max_diff)
-        max_rel_diff = max(rel_diff, max_rel_diff)
+        max_diff = worst(diff, max_diff)
+        max_rel_diff = worst(rel_diff, max_rel_diff)
 
     if line_comparison:
         return True, max_diff, max_rel_diff
@@ -94,27 +102,30 @@ def compare_files(
     max_diff_file = 0.0
     max_rel_diff_file = 0.0
     line_comparison = True
+    nb_lines = 0
 
-    for line_f1, line_f2, line_counter in zip(
+    for _, line_f1, line_f2 in zip(
+        range(nb_tests),
         f1,
         f2,
-        range(nb_tests + 1),
         strict=False,
     ):
+        nb_lines += 1
         float_comparison, max_diff_line, max_rel_diff_line = (
             compare_lines(line_f1, line_f2, precision)
         )
         line_comparison = float_comparison & line_comparison
 
-        max_diff_file = max(max_diff_line, max_diff_file)
-        max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
-
-        if line_counter == int(nb_tests):
-            break
+        max_diff_file = worst(max_diff_line, max_diff_file)
+        max_rel_diff_file = worst(max_rel_diff_line, max_rel_diff_file)
 
     f1.close()
     f2.close()
 
+    if nb_lines < nb_tests:
+        msg = f"Only {nb_lines} of the {nb_tests} inferences are in both files."
+        raise ValueError(msg)
+
     if line_comparison:
         return True, max_diff_file, max_rel_diff_file
 
-- 
2.43.0


From 25c154edfb4922325e22afe0d84a8645ef9eec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 43/81] fix: read the values of the boolean options of
 acetone_generate

---
 src/acetone_nnet/cli/generate.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/cli/generate.py b/src/acetone_nnet/cli/generate.py
index 6782ee0..de44c3f 100644
--- a/src/acetone_nnet/cli/generate.py
+++ b/src/acetone_nnet/cli/generate.py
@@ -66,6 +66,16 @@ def cli_acetone(
     net.compute_inference(output_dir)
 
 
+def parse_bool(value: str) -> bool:
+    """Read the value of a boolean option."""
+    if value.lower() in ("true", "yes", "on", "1"):
+        return True
+    if value.lower() in ("false", "no", "off", "0", ""):
+        return False
+    msg = f"invalid boolean value: {value!r}"
+    raise argparse.ArgumentTypeError(msg)
+
+
 def acetone_generate() -> None:
     """Generate C code from a neural network model description file."""
     parser = argparse.ArgumentParser(
@@ -116,6 +126,9 @@ def acetone_generate() -> None:
         "--optimization",
         help="Activate model optimization on the internal representation.",
         default=False,
+        type=parse_bool,
+        nargs="?",
+        const=True,
     )
 
     parser.add_argument(
@@ -134,14 +147,18 @@ def acetone_generate() -> None:
     parser.add_argument(
         "--bin_dataset",
         default=False,
-        type=bool,
+        type=parse_bool,
+        nargs="?",
+        const=True,
         help="generate dataset as a binary file (not source compiled file)",
     )
 
     parser.add_argument(
         "--verbose",
         default=False,
-        type=bool,
+        type=parse_bool,
+        nargs="?",
+        const=True,
         help="verbose logging at INFO level else WARNING level",
     )
 
-- 
2.43.0


From e4e3487aec7da0ea9e07e0d6481b3a8bfe9b5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 44/81] fix: report no difference between equal infinities in
 acetone_compare

---
 src/acetone_nnet/cli/compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 87b7adc..b6a50eb 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -36,7 +36,7 @@ def compare_floats(
     diff = abs(a - b)
 
     if a == b:
-        return True, diff, 0.0
+        return True, 0.0, 0.0
 
     norm = min((abs(a) + abs(b)), sys.float_info.max)
     rel_diff = diff / (norm / 2) if norm != 0 else 0.0
-- 
2.43.0


From 929b4b8c40bf624ea570d9b64821ce1b820d9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 45/81] fix: infer the shapes missing from ONNX models, and
 leave the given model as it is

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 102d2ca..c37ec5e 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -71,8 +71,8 @@ def load_onnx(
         else file_to_parse
     )
 
-    if not model.graph.value_info:
-        model = onnx.shape_inference.infer_shapes(model)
+    # This also works on a copy: the Constant nodes are added to the initializers
+    model = onnx.shape_inference.infer_shapes(model)
 
     # The list of layers
     layers: list[Layer] = []
-- 
2.43.0


From ffdb621c51abc4b3dd26ccd0b253092d801e8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 46/81] fix: read the custom generation functions as
 documented: a list of pairs, possibly empty, for each key

---
 src/acetone_nnet/generator/neural_network.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 37eaf28..5a52cee 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -325,11 +325,10 @@ class CodeGenerator(ABC):
                 lambda s,path: s.generate_target_header_file(path),
             ]
 
-        for k in custom_generation_functions:
-            name, generation_function = custom_generation_functions.get(k, ("", []))
-            if generation_function:
-                file_names.append(name)
-                generation_functions[k] = generation_function
+        for k, custom_functions in custom_generation_functions.items():
+            if custom_functions:
+                file_names.extend(name for name, _ in custom_functions)
+                generation_functions[k] = [function for _, function in custom_functions]
 
         return file_names, generation_functions
 
-- 
2.43.0


From b34c42c47195eaca63444c5fdb0b2288dcad28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 47/81] fix: do not overwrite existing binary parameters and
 samples

---
 src/acetone_nnet/generator/neural_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 5a52cee..d2ffe12 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -794,7 +794,8 @@ class CodeGenerator(ABC):
         c_files_directory = Path(c_files_directory)
         c_files_directory.mkdir(exist_ok=True, parents=True)
 
-        for file in self.files_to_gen:
+        data_files = ["parameters.dat", "test_dataset.dat"] if self.bin_dataset else []
+        for file in self.files_to_gen + data_files:
             if (c_files_directory / file).exists():
                 raise FileExistsError(c_files_directory / file)
 
-- 
2.43.0


From 76a7761fc2c8180c36bd93409c56ce8d89e43c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 48/81] fix: link the generated .c and .h files only

---
 src/acetone_nnet/generator/neural_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index d2ffe12..63e4865 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -753,9 +753,9 @@ class CodeGenerator(ABC):
         header_files = []
         source_files = []
         for filename in self.files_to_gen:
-            if ".c" in filename:
+            if filename.endswith(".c"):
                 source_files.append(filename)
-            elif ".h" in filename:
+            elif filename.endswith(".h"):
                 header_files.append(filename)
 
         properties = self._get_makefile_properties()
-- 
2.43.0


From fe3180c3824864546b9ef0b471d462754e374a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 49/81] fix: read the bounds of Clip nodes given as attributes
 (before opset 11)

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a9f7d63..a05c5d7 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1434,7 +1434,12 @@ def clip_bounds(
         model: onnx.ModelProto,
 ) -> tuple[float, float]:
     """Read the optional bounds of a Clip node."""
-    bounds = [float("-inf"), float("inf")]
+    # Before opset 11, the bounds are attributes
+    attributes = extract_attributes(node)
+    bounds = [
+        attributes.get("min", float("-inf")),
+        attributes.get("max", float("inf")),
+    ]
     for i, name in enumerate(node.input[1:]):
         if name:
             bound = onnx.numpy_helper.to_array(look_for_initializer(name, model))
-- 
2.43.0


From 0cc7560a67a660cac378f903e95efcc591a17321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 50/81] fix: compute Softmax as defined before opset 13

---
 .../importers/ONNX_importer/create_layer.py    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a05c5d7..3bddc55 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -270,11 +270,21 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    if model.opset_import[0].version < onnx_version_change_implementation:
+        # The Softmax is computed over all the dimensions from the axis on
+        rank = len(input_shape)
+        first = attributes.get("axis", 1)
+        first += rank if first < 0 else 0
+        reduced = [axis for axis in range(first, rank) if input_shape[axis] != 1]
+        if len(reduced) > 1:
+            msg = f"Error: Softmax over several dimensions ({reduced}) not supported"
+            raise ValueError(msg)
+        attributes["axis"] = reduced[0] - rank if reduced else -1
+        if not reduced and input_shape[-1:] != [1]:
+            msg = f"Error: Softmax over no dimension (axis {first}) not supported"
+            raise ValueError(msg)
     if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 1
-        else:
-            attributes["axis"] = len(output_shape) - 1
+        attributes["axis"] = len(output_shape) - 1
     elif attributes["axis"] < 0:
         attributes["axis"] = len(output_shape) + attributes["axis"]
     else:
-- 
2.43.0


From acccb47baaa71425c3e9c0bcfce4506e0265c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 51/81] fix: refuse the ONNX nodes which would be ignored or
 misread

---
 .../importers/ONNX_importer/create_layer.py   | 38 +++++++++++++++++--
 .../importers/ONNX_importer/parser_ONNX.py    |  3 ++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 3bddc55..c48dede 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -767,6 +767,9 @@ def create_batch_norm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
 
+    if attributes.get("training_mode", 0):
+        msg = "Error: training mode in BatchNormalization not supported"
+        raise ValueError(msg)
     if "epsilon" not in attributes:
         attributes["epsilon"] = 1e-05
 
@@ -1573,14 +1576,43 @@ def create_initializer(
     const.name = node.output[0]
 
 
+def create_shape(
+    node: onnx.NodeProto,
+    dict_output: dict,
+    model: onnx.ModelProto,
+) -> None:
+    """Change a Shape layer into an initializer."""
+    attributes = extract_attributes(node)
+    shape = get_shape(node.input[0], model, extend=False)
+    shape = shape[attributes.get("start", 0):attributes.get("end")]
+    model.graph.initializer.append(
+        onnx.numpy_helper.from_array(np.array(shape, dtype=np.int64), node.output[0]),
+    )
+
+
+def bypass_dropout(
+    node: onnx.NodeProto,
+    dict_output: dict,
+    model: onnx.ModelProto,
+) -> None:
+    """Bypass a Dropout layer, which is the identity out of training."""
+    for name in node.input[2:]:
+        training_mode = look_for_initializer(name, model)
+        if name and not (
+            training_mode and not onnx.numpy_helper.to_array(training_mode).any()
+        ):
+            msg = "Error: training mode in Dropout not supported"
+            raise ValueError(msg)
+    bypass(node, dict_output, model)
+
+
 ###### Dict of all the functions ######
 unused_layers = {
-    "Dropout": bypass,
+    "Dropout": bypass_dropout,
     "Constant": create_initializer,
     "Unsqueeze": bypass,
     "Reshape": bypass,
-    "LRN": bypass,
-    "Shape": bypass,
+    "Shape": create_shape,
     "Flatten": bypass,
 }
 
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index c37ec5e..6310284 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -105,6 +105,9 @@ def load_onnx(
 
     # Going through all the nodes to create the layers and add them to the list
     for node in model.graph.node:
+        if node.domain not in ("", "ai.onnx"):
+            msg = f"Error: layer {node.domain}.{node.op_type} not supported\n"
+            raise TypeError(msg)
         if node.op_type in layer_type:
             # If the node is a useful layer, we add it to the list
             layers.append(
-- 
2.43.0


From 5e3d821d82c2d61f4f118bf8d01823135a452980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 52/81] fix: compile the transpositions of the batch dimension

---
 .../generator/layers/transpose/Transpose.py    |  3 +++
 .../layers/transpose/TransposeDefault.py       | 18 +++++-------------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index 13add70..d363144 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -91,6 +91,9 @@ class Transpose(Layer):
             msg += (f"Error: size value in Transpose "
                     f"({self.size}!={self.output_channels * self.output_height * self.output_width})")
             msg += "\n"
+        if input_shape[0] != 1:
+            msg += f"Error: batch in Transpose ({input_shape[0]} not supported)"
+            msg += "\n"
         seen = []
         for indice in self.perm:
             if indice < 0 or indice >= 4:
diff --git a/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py b/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py
index 866f520..c798ce7 100644
--- a/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py
+++ b/src/acetone_nnet/generator/layers/transpose/TransposeDefault.py
@@ -56,19 +56,11 @@ class TransposeDefault(Transpose):
         mustach_hash["input_height"] = self.input_height
         mustach_hash["input_width"] = self.input_width
 
-        indices = ["Batch", "f", "i", "j"]
-        if self.perm[1:] == [2, 3, 1]:
-            mustach_hash["a"] = indices[self.perm[1]]
-            mustach_hash["b"] = indices[self.perm[3]]
-            mustach_hash["c"] = indices[self.perm[2]]
-        elif self.perm[1:] == [3, 1, 2]:
-            mustach_hash["a"] = indices[self.perm[2]]
-            mustach_hash["b"] = indices[self.perm[1]]
-            mustach_hash["c"] = indices[self.perm[3]]
-        else:
-            mustach_hash["a"] = indices[self.perm[3]]
-            mustach_hash["b"] = indices[self.perm[2]]
-            mustach_hash["c"] = indices[self.perm[1]]
+        # Index of the output along each dimension of the input
+        indices = ["0", "f", "i", "j"]
+        mustach_hash["a"] = indices[self.perm.index(3)]
+        mustach_hash["b"] = indices[self.perm.index(2)]
+        mustach_hash["c"] = indices[self.perm.index(1)]
 
         with open(self.template_path / "layers" / "template_Transpose.c.tpl") as template_file:
             template = template_file.read()
-- 
2.43.0


From 50709f4346653890561a05e5fb12e34f79858e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 53/81] fix: refuse the pads and the reductions which would be
 computed wrongly

---
 src/acetone_nnet/generator/layers/padding/Pad.py    |  3 +++
 .../layers/padding/reflect_pad/ReflectPad.py        |  8 ++++++++
 .../importers/ONNX_importer/create_layer.py         | 13 +++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/padding/Pad.py b/src/acetone_nnet/generator/layers/padding/Pad.py
index 859fe71..7d963c3 100644
--- a/src/acetone_nnet/generator/layers/padding/Pad.py
+++ b/src/acetone_nnet/generator/layers/padding/Pad.py
@@ -106,6 +106,9 @@ class Pad(Layer):
                 f"({self.size}!={self.output_channels * self.output_height * self.output_width})"
             )
             raise ValueError(msg)
+        if any(pad < 0 for pad in self.pads):
+            msg = f"Error: negative pads in Pad ({self.pads}) not supported"
+            raise ValueError(msg)
         for axe in self.axes:
             if axe < 0 or axe >= 4:
                 msg = (
diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py
index 34dbe20..921f1ea 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py
@@ -34,6 +34,14 @@ class ReflectPad(Pad):
         super().__init__(**kwargs)
         self.name = "ReflectPad"
         self.mode = "reflect"
+        nb_dim = len(self.pads) // 2
+        if any(
+            max(self.pads[i], self.pads[i + nb_dim]) >= max(self.input_shape[i], 1)
+            and self.pads[i] + self.pads[i + nb_dim] > 0
+            for i in range(1, nb_dim)
+        ):
+            msg = f"Error: pads larger than the input in ReflectPad ({self.pads})"
+            raise ValueError(msg)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index c48dede..baa0537 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -210,6 +210,14 @@ def check_pooling_attributes(
             raise ValueError(msg)
 
 
+def check_reduced_shape(input_shape: list[int], node: onnx.NodeProto) -> None:
+    """Reject the reductions which are not over the last three dimensions."""
+    dimensions = 4
+    if len(input_shape) > dimensions or input_shape[0] > 1:
+        msg = f"Error: input shape {input_shape} in {node.op_type} not supported"
+        raise ValueError(msg)
+
+
 ###### Functions to create a Layer ######
 
 
@@ -864,6 +872,7 @@ def create_reduce_sum(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
+    check_reduced_shape(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -920,6 +929,7 @@ def create_reduce_max(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
+    check_reduced_shape(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -976,6 +986,7 @@ def create_reduce_min(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
+    check_reduced_shape(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -1032,6 +1043,7 @@ def create_reduce_mean(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
+    check_reduced_shape(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -1088,6 +1100,7 @@ def create_reduce_prod(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
+    check_reduced_shape(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
-- 
2.43.0


From 6c8b52c8c7e207a8fe4b397eb27e05580976a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 54/81] fix: refuse the normalization of the tensors without
 four dimensions

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index baa0537..68892d0 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -775,6 +775,9 @@ def create_batch_norm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
 
+    if len(get_shape(node.input[0], model, extend=False)) != 4:  # noqa: PLR2004
+        msg = "Error: BatchNormalization only supported for four dimensions"
+        raise ValueError(msg)
     if attributes.get("training_mode", 0):
         msg = "Error: training mode in BatchNormalization not supported"
         raise ValueError(msg)
-- 
2.43.0


From 1bf02215b4169500c028dfe0ab0f28a4adb415f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 55/81] fix: refuse the ONNX models with tensors of unknown
 shape

---
 .../importers/ONNX_importer/create_layer.py          | 12 +++++++++---
 .../importers/ONNX_importer/parser_ONNX.py           |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 68892d0..f667ae2 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -144,10 +144,13 @@ def get_shape(
     extend: bool=True,
 ) -> list[int]:
     """Compute the shape of a tensor."""
-    shape = []
+    shape = None
     shape_length = 4
+    for initializer in model.graph.initializer:
+        if shape_name == initializer.name:
+            shape = list(initializer.dims)
     for info in model.graph.value_info:
-        if shape_name == info.name:
+        if shape_name == info.name and info.type.tensor_type.HasField("shape"):
             shape = [
                 info.type.tensor_type.shape.dim[i].dim_value
                 for i in range(len(info.type.tensor_type.shape.dim))
@@ -159,11 +162,14 @@ def get_shape(
                 for i in range(len(input_layer.type.tensor_type.shape.dim))
             ]
     for output in model.graph.output:
-        if shape_name == output.name:
+        if shape_name == output.name and output.type.tensor_type.HasField("shape"):
             shape = [
                 output.type.tensor_type.shape.dim[i].dim_value
                 for i in range(len(output.type.tensor_type.shape.dim))
             ]
+    if shape is None:
+        msg = f"Error: unknown shape of {shape_name}"
+        raise ValueError(msg)
     for i in range(len(shape)):
         if shape[i] == 0 or shape[i] is None:
             shape[i] = 1
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 6310284..e930806 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -72,7 +72,7 @@ def load_onnx(
     )
 
     # This also works on a copy: the Constant nodes are added to the initializers
-    model = onnx.shape_inference.infer_shapes(model)
+    model = onnx.shape_inference.infer_shapes(model, data_prop=True)
 
     # The list of layers
     layers: list[Layer] = []
-- 
2.43.0


From 6a0848ad04021b05f4e65f4d67622287f29b8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 56/81] fix: infer the shapes of the ONNX models of unknown
 batch size, refuse the other unknown dimensions

---
 .../importers/ONNX_importer/create_layer.py   |  3 +++
 .../importers/ONNX_importer/parser_ONNX.py    | 20 +++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index f667ae2..6662ca5 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -170,6 +170,9 @@ def get_shape(
     if shape is None:
         msg = f"Error: unknown shape of {shape_name}"
         raise ValueError(msg)
+    if 0 in shape[1:]:
+        msg = f"Error: unknown dimension in {shape_name} ({shape})"
+        raise ValueError(msg)
     for i in range(len(shape)):
         if shape[i] == 0 or shape[i] is None:
             shape[i] = 1
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index e930806..b334865 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -60,6 +60,20 @@ def find_data_type(
     return data_type, data_type_py
 
 
+def set_input_dimensions(model: onnx.ModelProto) -> onnx.ModelProto:
+    """Return a copy of the model with an input of known shape (of batch 1)."""
+    fixed_model = onnx.ModelProto()
+    fixed_model.CopyFrom(model)
+    for model_input in fixed_model.graph.input:
+        for i, dim in enumerate(model_input.type.tensor_type.shape.dim):
+            if dim.dim_value <= 0:
+                if i != 0:
+                    msg = f"Error: unknown dimension in input {model_input.name}"
+                    raise ValueError(msg)
+                dim.dim_value = 1
+    return fixed_model
+
+
 def load_onnx(
     file_to_parse: Path | str | onnx.ModelProto
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -71,8 +85,10 @@ def load_onnx(
         else file_to_parse
     )
 
-    # This also works on a copy: the Constant nodes are added to the initializers
-    model = onnx.shape_inference.infer_shapes(model, data_prop=True)
+    # Work on a copy: the Constant nodes are added to the initializers
+    model = onnx.shape_inference.infer_shapes(
+        set_input_dimensions(model), data_prop=True,
+    )
 
     # The list of layers
     layers: list[Layer] = []
-- 
2.43.0


From 7c57c98c3ef713f3d4da01ca4d4bfdd14842998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 57/81] fix: refuse the ONNX models with several inputs or
 outputs

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index b334865..7a6a71c 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -105,6 +105,12 @@ def load_onnx(
     # (before IR version 4, the initializers are also listed in the inputs)
     initializers = {i.name for i in model.graph.initializer}
     inputs = [i for i in model.graph.input if i.name not in initializers]
+    if len(inputs) != 1 or len(model.graph.output) != 1:
+        msg = (
+            f"Error: {len(inputs)} inputs and {len(model.graph.output)} outputs in the model "
+            "(only one of each is supported)"
+        )
+        raise ValueError(msg)
     for i in inputs:
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
-- 
2.43.0


From c3b983b097eafc70b3bab6cbcc7fc14258425bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 58/81] fix: only generate the layers the output of the ONNX
 model depends on

---
 .../importers/ONNX_importer/parser_ONNX.py       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 7a6a71c..7b3d47d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -24,6 +24,7 @@ from pathlib import Path
 import numpy as np
 import onnx
 
+from acetone_nnet.generator import InputLayer
 from acetone_nnet.graph.graph_interpretor import tri_topo
 from acetone_nnet.importers.ONNX_importer.create_layer import (
     activation_layers,
@@ -173,6 +174,21 @@ def load_onnx(
             layer.previous_layer.append(parent)
             parent.next_layer.append(layer)
 
+    # Only keep the layers the output depends on
+    output_layer = layers[dict_output[model.graph.output[0].name]]
+    needed = {output_layer.idx: output_layer}
+    to_visit = [output_layer]
+    while to_visit:
+        for parent in to_visit.pop().previous_layer:
+            if parent.idx not in needed:
+                needed[parent.idx] = parent
+                to_visit.append(parent)
+    layers = [
+        layer for layer in layers if layer.idx in needed or isinstance(layer, InputLayer)
+    ]
+    for layer in layers:
+        layer.next_layer = [n for n in layer.next_layer if n.idx in needed]
+
     data_type = onnx.helper.tensor_dtype_to_np_dtype(
         inputs[0].type.tensor_type.elem_type,
     )
-- 
2.43.0


From 69fea4a05c047fb5c9334efe76f3e95504fd7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 59/81] fix: start the network with its input when other layers
 only depend on constants

---
 src/acetone_nnet/graph/graph_interpretor.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index dbcfb95..7ee1f49 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -21,7 +21,7 @@
 
 from collections import deque
 
-from acetone_nnet.generator.layers import ConstantLayer
+from acetone_nnet.generator.layers import ConstantLayer, InputLayer
 from acetone_nnet.ir import Layer
 
 
@@ -40,13 +40,17 @@ def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
         if layer.idx not in visited_layers:
             parcours_prof_topo(sorted_layers, layer, visited_layers)
     # FIX Prevent constants from being mistaken as Input or Output
-    other_layers, constants = [], []
+    input_layers, other_layers, constants = [], [], []
     for i in sorted_layers:
-        if isinstance(i, ConstantLayer):
+        if isinstance(i, InputLayer):
+            input_layers.append(i)
+        elif isinstance(i, ConstantLayer):
             constants.append(i)
         else:
             other_layers.append(i)
-    sorted_layers = [other_layers[0]] + constants + other_layers[1:]
+    if not input_layers:
+        input_layers.append(other_layers.pop(0))
+    sorted_layers = input_layers + constants + other_layers
     # Allocate temp variable to layers
     assign_liveliness_index(sorted_layers)
     dict_cst = assign_cst(sorted_layers)
-- 
2.43.0


From cde532033720afe92b39d736c7d7205470803e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 60/81] fix: refuse the ONNX models of integer type, which were
 computed in floating point

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 7b3d47d..d1a4a11 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -193,6 +193,9 @@ def load_onnx(
         inputs[0].type.tensor_type.elem_type,
     )
 
+    if data_type.kind in "iub":
+        msg = f"Error: models of type {data_type} not supported"
+        raise TypeError(msg)
     data_type, data_type_py = find_data_type(str(data_type))
 
     # Sorting the graph and adding the road to the layers
-- 
2.43.0


From 73bab356c4943c0ba939ae6b703fffa1eefb6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 61/81] fix: refuse the ONNX layers over unsupported
 dimensions, default to the first axis in Gather

---
 .../importers/ONNX_importer/create_layer.py   | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6662ca5..c7c210c 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -219,8 +219,17 @@ def check_pooling_attributes(
             raise ValueError(msg)
 
 
-def check_reduced_shape(input_shape: list[int], node: onnx.NodeProto) -> None:
-    """Reject the reductions which are not over the last three dimensions."""
+def check_images(model: onnx.ModelProto, node: onnx.NodeProto) -> None:
+    """Reject the convolutions and poolings over one or three dimensions."""
+    dimensions = 4
+    input_shape = get_shape(node.input[0], model, extend=False)
+    if len(input_shape) != dimensions:
+        msg = f"Error: {node.op_type} of an input of shape {input_shape} not supported"
+        raise ValueError(msg)
+
+
+def check_dimensions(input_shape: list[int], node: onnx.NodeProto) -> None:
+    """Reject the inputs with more than three dimensions after the batch, or a batch."""
     dimensions = 4
     if len(input_shape) > dimensions or input_shape[0] > 1:
         msg = f"Error: input shape {input_shape} in {node.op_type} not supported"
@@ -325,6 +334,7 @@ def create_conv(
     model: onnx.ModelProto,
 ) -> Conv2D:
     """Create a Conv2D layer."""
+    check_images(model, node)
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -569,6 +579,7 @@ def create_gather(
 ) -> Gather:
     """Create a Gather layer."""
     input_shape = get_shape(node.input[0], model)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     original_len_shape = len(get_shape(node.input[0], model, extend=False))
     size = find_size(output_shape)
@@ -578,12 +589,10 @@ def create_gather(
     indices = np.array(
         onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)),
     )
-    if "axis" not in attributes:
-        attributes["axis"] = 0
-    elif attributes["axis"] < 0:
+    if attributes.get("axis", 0) < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
-        attributes["axis"] = len(input_shape) + attributes["axis"] - original_len_shape
+        attributes["axis"] = len(input_shape) + attributes.get("axis", 0) - original_len_shape
     # Adjust indices to positive values from [-s, s-1] to [0, s]
     for i in np.ndindex(indices.shape):
         if indices[i] < 0:
@@ -610,6 +619,7 @@ def create_gather_elements(
 ) -> GatherElements:
     """Create a GatherElements layer."""
     input_shape = get_shape(node.input[0], model)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     original_len_shape = len(get_shape(node.input[0], model, extend=False))
     size = find_size(output_shape)
@@ -619,12 +629,10 @@ def create_gather_elements(
     indices = np.array(
         onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)),
     )
-    if "axis" not in attributes:
-        attributes["axis"] = 0
-    elif attributes["axis"] < 0:
+    if attributes.get("axis", 0) < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
-        attributes["axis"] = len(input_shape) + attributes["axis"] - original_len_shape
+        attributes["axis"] = len(input_shape) + attributes.get("axis", 0) - original_len_shape
     # Adjust indices to positive values from [-s, s-1] to [0, s]
     for i in np.ndindex(indices.shape):
         if indices[i] < 0:
@@ -884,7 +892,7 @@ def create_reduce_sum(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
-    check_reduced_shape(input_shape, node)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -941,7 +949,7 @@ def create_reduce_max(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
-    check_reduced_shape(input_shape, node)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -998,7 +1006,7 @@ def create_reduce_min(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
-    check_reduced_shape(input_shape, node)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -1055,7 +1063,7 @@ def create_reduce_mean(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
-    check_reduced_shape(input_shape, node)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -1112,7 +1120,7 @@ def create_reduce_prod(
 
     input_shape = get_shape(node.input[0], model)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
-    check_reduced_shape(input_shape, node)
+    check_dimensions(input_shape, node)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -1169,6 +1177,7 @@ def create_max_pool(
     model: onnx.ModelProto,
 ) -> MaxPooling2D:
     """Create a MaxPool layer."""
+    check_images(model, node)
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1209,6 +1218,7 @@ def create_average_pool(
     model: onnx.ModelProto,
 ) -> AveragePooling2D:
     """Create an AveragePool layer."""
+    check_images(model, node)
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1249,6 +1259,7 @@ def create_global_average_pool(
     model: onnx.ModelProto,
 ) -> AveragePooling2D:
     """Create a GlobalAveragePool layer."""
+    check_images(model, node)
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-- 
2.43.0


From e4f482566cf8d5351f1cd41f168db615757d03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 62/81] fix: gather with indices of any shape

---
 .../generator/layers/gather/GatherDefault.py        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/GatherDefault.py b/src/acetone_nnet/generator/layers/gather/GatherDefault.py
index bbfd9ba..6fe7a99 100644
--- a/src/acetone_nnet/generator/layers/gather/GatherDefault.py
+++ b/src/acetone_nnet/generator/layers/gather/GatherDefault.py
@@ -55,18 +55,19 @@ class GatherDefault(Gather):
         mustach_hash["input_width"] = self.input_width
         mustach_hash["input_height"] = self.input_height
 
+        # The other dimensions are those of the input, whatever the shape of the indices
         if self.axis == 1:
             mustach_hash["channels"] = True
-            mustach_hash["output_height"] = self.output_height
-            mustach_hash["output_width"] = self.output_width
+            mustach_hash["output_height"] = self.input_height
+            mustach_hash["output_width"] = self.input_width
         elif self.axis == 2:
             mustach_hash["heights"] = True
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_width"] = self.output_width
+            mustach_hash["output_channels"] = self.input_channels
+            mustach_hash["output_width"] = self.input_width
         elif self.axis == 3:
             mustach_hash["widths"] = True
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_height"] = self.output_height
+            mustach_hash["output_channels"] = self.input_channels
+            mustach_hash["output_height"] = self.input_height
 
         with open(self.template_path / "layers" / "template_Gather.c.tpl") as template_file:
             template = template_file.read()
-- 
2.43.0


From 905efb12dceb023d03a5bf5187209a5308805e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 63/81] fix: reductions over the batch dimension only leave the
 sample unchanged

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 32ebdf3..0400a5a 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,7 +169,7 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            if self.noop_with_empty_axes or self.axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
                     f"ctx->{output_str}[k]")
-- 
2.43.0


From f36799aa0368ddaaeb0060e0e2f7f7206757387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 64/81] fix: refuse the ONNX Softmax and MatMul over
 unsupported dimensions

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index c7c210c..6562632 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -295,6 +295,7 @@ def create_softmax(
     size = find_size(output_shape)
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
+    check_dimensions(output_shape, node)
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         # The Softmax is computed over all the dimensions from the axis on
@@ -766,6 +767,7 @@ def create_matmul(
     for name, shape in inputs:
         while len(shape) < 4:
             shape = (1, *tuple(shape))
+        check_dimensions(list(shape), node)
         dict_input[idx].append(name)
         input_shape.append(shape)
 
-- 
2.43.0


From 1a61fd4f6364ff7509f5a349ec5e4b950f50fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 65/81] fix: refuse the PyTorch programs and functions which
 would be ignored or misread

---
 .../PYTORCH_importer/parse_pytorch.py         | 51 ++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..1d44e6a 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -119,6 +119,13 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_placeholder(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("INPUT", node, f"call: {target_name}(args={node.args})")
+        if any(isinstance(layer, InputLayer) for layer, _ in self.layerdic.values()):
+            msg = "Error: PyTorch programs with several inputs not supported"
+            raise ValueError(msg)
+        shape = tuple(node.meta['val'].shape)
+        if node.meta['val'].dtype != torch.float32 or len(shape) > 4 or (len(shape) > 1 and shape[0] != 1):
+            msg = f"Error: input of shape {shape} and type {node.meta['val'].dtype} not supported"
+            raise ValueError(msg)
         this_layer = InputLayer(
             original_name=node.name,
             idx=self.idx,
@@ -135,7 +142,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        # Name of the operator, without its overload ("add" for "add.Tensor")
+        function = target_name.split(".")[0]
+        if function == "linear":
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
@@ -148,16 +157,16 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
+        elif function in ("relu", "relu_"):
             self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
             self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "clamp" in target_name:
+        elif function in ("clamp", "clamp_"):
             self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
                 max_value=node.args[2],
                 min_value=node.args[1]
             )
             self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "conv2d" in target_name:
+        elif function == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
@@ -188,7 +197,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif function == "batch_norm":
+            if node.args[5]:
+                msg = "Error: training mode in batch_norm not supported"
+                raise ValueError(msg)
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
@@ -203,7 +215,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
+        elif function in ("add", "add_"):
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
@@ -220,7 +232,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif function == "cat":
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
@@ -235,11 +247,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "dropout" in target_name:
+        elif function == "dropout":
+            if node.args[2]:
+                msg = "Error: training mode in dropout not supported"
+                raise ValueError(msg)
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
+        elif function == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
+        elif function == "max_pool2d":
             kernel = node.args[1][0] if len(node.args) > 1 else 1
             stride = node.args[2][0] if len(node.args) > 2 else 1
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
@@ -260,7 +275,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif function == "adaptive_avg_pool2d":
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -277,12 +292,17 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
+        else:
+            msg = f"Error: PyTorch function {target_name} not supported"
+            raise TypeError(msg)
 
     def visit_call_module(self, node: torch.fx.Node):
-        self._print_node("MODULE", node, f"mod: {node.target}")
+        msg = f"Error: PyTorch module {node.target} not supported"
+        raise TypeError(msg)
 
     def visit_call_method(self, node: torch.fx.Node):
-        self._print_node("METHOD", node, f"obj.{node.target}(args={node.args})")
+        msg = f"Error: PyTorch method {node.target} not supported"
+        raise TypeError(msg)
 
     def visit_get_attr(self, node: torch.fx.Node):
         # Attributes usually identify parameters/buffers, which also have shapes in ExportedProgram
@@ -291,6 +311,11 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_output(self, node: torch.fx.Node):
         # The output node usually contains the return value in args[0]
         # We look at the meta of the output node itself if available, or the inputs
+        outputs = node.args[0]
+        if not isinstance(outputs, (tuple, list)) or len(outputs) != 1:
+            msg = "Error: PyTorch programs with several outputs not supported"
+            raise ValueError(msg)
+        self.output_name = outputs[0].name
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
 
 
-- 
2.43.0


From bcdda168a9b2e29673f007f24334d049c2911404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 66/81] fix: give the shapes of four dimensions to the sums and
 concatenations of PyTorch programs

---
 .../PYTORCH_importer/parse_pytorch.py         | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 1d44e6a..e33b3f3 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -64,6 +64,11 @@ class FXGraphVisitor:
 
 
 
+def extend_shape(shape: tuple) -> list[int]:
+    """Extend a shape to four dimensions."""
+    return [1] * (4 - len(shape)) + [int(dim) for dim in shape]
+
+
 # 2. Concrete Visitor: ShapeAwareVisitor
 class ShapeAwareVisitor(FXGraphVisitor):
     """
@@ -216,13 +221,18 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
         elif function in ("add", "add_"):
-            if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
+            if node.meta['val'].is_floating_point(): # bypass bn2_num_batches_tracked + 1
+                if node.kwargs or any(
+                    getattr(arg, "name", None) not in self.layerdic for arg in node.args
+                ):
+                    msg = "Error: add of a constant, or of a scaled tensor, not supported"
+                    raise ValueError(msg)
                 this_layer =  Add(
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    input_shapes=[self.layerdic[node.args[i].name][1] for i in range(len(node.args))],
-                    output_shape=node.meta['val'].shape,
+                    input_shapes=[extend_shape(self.layerdic[node.args[i].name][1]) for i in range(len(node.args))],
+                    output_shape=extend_shape(node.meta['val'].shape),
                     activation_function=Linear(),
                 )
                 for i in range(len(node.args)):
@@ -233,13 +243,16 @@ class ShapeAwareVisitor(FXGraphVisitor):
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
         elif function == "cat":
+            rank = len(node.meta['val'].shape)
+            axis = node.args[1] if len(node.args) > 1 else 0
+            axis += rank if axis < 0 else 0
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    axis=node.args[1],
-                    input_shapes=[self.layerdic[node.args[0][i].name][1] for i in range(len(node.args[0]))],
-                    output_shape=node.meta['val'].shape,
+                    axis=axis + 4 - rank,
+                    input_shapes=[extend_shape(self.layerdic[node.args[0][i].name][1]) for i in range(len(node.args[0]))],
+                    output_shape=extend_shape(node.meta['val'].shape),
                     activation_function=Linear(),
                 )
             for i in range(len(node.args[0])):
@@ -253,7 +266,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 raise ValueError(msg)
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
         elif function == "flatten":
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
+            self.layerdic[node.name] = (self.layerdic[node.args[0].name][0], node.meta['val'].shape)
         elif function == "max_pool2d":
             kernel = node.args[1][0] if len(node.args) > 1 else 1
             stride = node.args[2][0] if len(node.args) > 2 else 1
-- 
2.43.0


From 6bee0a0c4d228d8fab963654df70023fddfda6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 67/81] fix: keep the PyTorch outputs read by several functions
 when fusing activations and normalizations

---
 .../PYTORCH_importer/parse_pytorch.py         | 61 ++++++++++++++++---
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index e33b3f3..8893d75 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -144,11 +145,45 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _is_used_once(self, layer: Layer) -> bool:
+        """Check that no more than one node reads the output of a layer, under any name."""
+        names = [name for name, (other, _) in self.layerdic.items() if other is layer]
+        return all(
+            len(node.users) <= 1 for node in self.module.graph.nodes if node.name in names
+        )
+
+    def _activate(self, node: torch.fx.Node, activation_function: ActivationFunctions):
+        """Apply an activation function in the previous layer, or in a layer of its own."""
+        previous = self.layerdic[node.args[0].name][0]
+        if (
+            self._is_used_once(previous)
+            and not isinstance(previous, InputLayer)
+            and type(getattr(previous, "activation_function", None)) is Linear
+        ):
+            previous.activation_function = activation_function # set previous layer activation
+            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register
+            return
+        this_layer = ActivationLayer(
+            original_name=node.name,
+            idx=self.idx,
+            size=node.meta['val'].numel(),
+            activation_function=activation_function,
+        )
+        previous.next_layer.append(this_layer)
+        this_layer.previous_layer.append(previous)
+        self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
+        self.idx+=1
+
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
         # Name of the operator, without its overload ("add" for "add.Tensor")
         function = target_name.split(".")[0]
+        if function.endswith("_") and node.meta['val'].is_floating_point() and not self._is_used_once(
+            self.layerdic[node.args[0].name][0],
+        ):
+            msg = f"Error: {target_name} modifies an output used several times"
+            raise ValueError(msg)
         if function == "linear":
             this_layer = Dense(
                 original_name=node.name,
@@ -163,14 +198,13 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif function in ("relu", "relu_"):
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._activate(node, ReLu())
         elif function in ("clamp", "clamp_"):
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
-                max_value=node.args[2],
-                min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            bounds = [*node.args[1:], None, None]
+            self._activate(node, Clip(
+                max_value=float("inf") if bounds[1] is None else bounds[1],
+                min_value=float("-inf") if bounds[0] is None else bounds[0],
+            ))
         elif function == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
@@ -207,9 +241,18 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 msg = "Error: training mode in batch_norm not supported"
                 raise ValueError(msg)
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
+            previous = self.layerdic[node.args[0].name][0]
+            if (
+                not isinstance(previous, Conv2D)
+                or type(previous.activation_function) is not Linear
+                or not self._is_used_once(previous)
+                or len(node.meta['val'].shape) != 4
+            ):
+                msg = "Error: batch_norm only supported after a conv2d"
+                raise ValueError(msg)
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-            bn_w = self.module.state_dict()[node.args[1].target]
-            bn_b = self.module.state_dict()[node.args[2].target]
+            bn_w = self.module.state_dict()[node.args[1].target] if node.args[1] is not None else torch.tensor(1.0)
+            bn_b = self.module.state_dict()[node.args[2].target] if node.args[2] is not None else torch.tensor(0.0)
             bn_rm = self.module.state_dict()[node.args[3].target]
             bn_rv = self.module.state_dict()[node.args[4].target]
             bn_eps = node.args[7]
-- 
2.43.0


From 75d749fbb8067eaaeb2e047c744bbeb9d31398b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 68/81] fix: read the rectangular kernels, paddings and
 optional arguments of PyTorch layers, refuse the non uniform ones

---
 .../PYTORCH_importer/parse_pytorch.py         | 40 +++++++++++++++----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 8893d75..b8466fe 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -145,6 +145,19 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _pair(self, value: Any) -> list[int]:
+        """Give the values of an argument for the height and the width."""
+        values = list(value) if isinstance(value, (list, tuple)) else [value]
+        return values * 2 if len(values) == 1 else values
+
+    def _uniform(self, value: Any, node: torch.fx.Node) -> int:
+        """Give the value of an argument, the same for the height and the width."""
+        values = self._pair(value)
+        if values[0] != values[1]:
+            msg = f"Error: non uniform argument {value} in {node.name} not supported"
+            raise ValueError(msg)
+        return values[0]
+
     def _is_used_once(self, layer: Layer) -> bool:
         """Check that no more than one node reads the output of a layer, under any name."""
         names = [name for name, (other, _) in self.layerdic.items() if other is layer]
@@ -185,12 +198,17 @@ class ShapeAwareVisitor(FXGraphVisitor):
             msg = f"Error: {target_name} modifies an output used several times"
             raise ValueError(msg)
         if function == "linear":
+            weights = self.module.state_dict()[node.args[1].target].numpy().T
+            if len(node.args) > 2 and node.args[2] is not None:
+                biases = self.module.state_dict()[node.args[2].target].numpy()
+            else:
+                biases = np.zeros(weights.shape[-1], dtype=np.float32)
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
-                weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                weights=weights,
+                biases=biases,
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
@@ -210,9 +228,17 @@ class ShapeAwareVisitor(FXGraphVisitor):
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
                 logging.info(f"[LAYOUT] : {self.data_format}")
-            stride = node.args[3][0] if len(node.args) > 3 else 1
-            padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-            dilation = node.args[5][0] if len(node.args) > 5 else 1
+            stride = self._uniform(node.args[3], node) if len(node.args) > 3 else 1
+            dilation = self._uniform(node.args[5], node) if len(node.args) > 5 else 1
+            if len(node.args) > 4 and isinstance(node.args[4], str):
+                total = [
+                    dilation * (kernel - 1) if node.args[4] == "same" else 0
+                    for kernel in self.module.state_dict()[node.args[1].target].shape[-2:]
+                ]
+                # PyTorch adds the odd row or column at the end
+                padding = [pad // 2 for pad in total] + [pad - pad // 2 for pad in total]
+            else:
+                padding = self._pair(node.args[4]) * 2 if len(node.args) > 4 else [0,0,0,0]
             group = node.args[6] if len(node.args) > 6 else 1
             this_layer = Conv2D(
                     conv_algorithm="specs",
@@ -222,14 +248,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-2],
                     kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self.module.state_dict()[node.args[2].target].numpy() if len(node.args) > 2 and node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-- 
2.43.0


From 9a15996314b37d5798931cd818dc0454a9006e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 69/81] fix: read the default stride of PyTorch poolings,
 refuse the poolings which would be misread

---
 .../PYTORCH_importer/parse_pytorch.py         | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index b8466fe..197549b 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -337,10 +337,19 @@ class ShapeAwareVisitor(FXGraphVisitor):
         elif function == "flatten":
             self.layerdic[node.name] = (self.layerdic[node.args[0].name][0], node.meta['val'].shape)
         elif function == "max_pool2d":
-            kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
-            padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
-            dilation = node.args[4][0] if len(node.args) > 4 else 1
+            kernel = self._uniform(node.args[1], node)
+            # The stride is, by default, the size of the kernel
+            stride = self._uniform(node.args[2], node) if len(node.args) > 2 and node.args[2] else kernel
+            padding = self._pair(node.args[3]) * 2 if len(node.args) > 3 else [0,0,0,0]
+            dilation = self._uniform(node.args[4], node) if len(node.args) > 4 else 1
+            # The output of ceil_mode has another row or column, unless the windows fit the input
+            fits = all(
+                (size + 2 * padding[0 if i == 2 else 1] - kernel) // stride + 1 == node.meta['val'].shape[i]
+                for i, size in enumerate(self.layerdic[node.args[0].name][1]) if i > 1
+            )
+            if dilation != 1 or not fits:
+                msg = "Error: dilation and ceil_mode in max_pool2d not supported"
+                raise ValueError(msg)
             this_layer = MaxPooling2D(
                     original_name=node.name,
                     idx=self.idx,
@@ -358,13 +367,16 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif function == "adaptive_avg_pool2d":
+            if any(size != 1 for size in self._pair(node.args[1])):
+                msg = f"Error: output size {node.args[1]} in adaptive_avg_pool2d not supported"
+                raise ValueError(msg)
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
                 padding=[0, 0, 0, 0],
                 strides=1,
-                pool_size=self.layerdic[node.args[0].name][1][-1],
+                pool_size=self._uniform(list(self.layerdic[node.args[0].name][1][-2:]), node),
                 input_shape=self.layerdic[node.args[0].name][1],
                 output_shape=node.meta['val'].shape,
                 activation_function=Linear(),
-- 
2.43.0


From 00444cc58d62bb137c3d317c616831d683681731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 70/81] fix: only generate the layers the output of the PyTorch
 program depends on

---
 .../importers/PYTORCH_importer/parse_pytorch.py    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 197549b..6c7a84d 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -417,7 +417,19 @@ class ShapeAwareVisitor(FXGraphVisitor):
 def load_pytorch(program : ExportedProgram):
     visitor = ShapeAwareVisitor()
     visitor.visit(program.module())
-    layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
+    # Only keep the layers the output depends on
+    output_layer = visitor.layerdic[visitor.output_name][0]
+    needed = {output_layer.idx}
+    to_visit = [output_layer]
+    while to_visit:
+        for parent in to_visit.pop().previous_layer:
+            if parent.idx not in needed:
+                needed.add(parent.idx)
+                to_visit.append(parent)
+    layers = {layer.idx: layer for layer, _ in visitor.layerdic.values() if layer.idx in needed}
+    for layer in layers.values():
+        layer.next_layer = [n for n in layer.next_layer if n.idx in needed]
+    layers, max_road, dict_cst = graph_interpretor.tri_topo(list(layers.values()))
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
     return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0


From de47cf6788242d6eb9e134e854afdb1fdb1ef387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 71/81] fix: normalize the PyTorch outputs which are not those
 of a convolution

---
 .../PYTORCH_importer/parse_pytorch.py         | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 6c7a84d..23661aa 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -268,20 +268,37 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 raise ValueError(msg)
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
             previous = self.layerdic[node.args[0].name][0]
+            bn_w = self.module.state_dict()[node.args[1].target] if node.args[1] is not None else torch.tensor(1.0)
+            bn_b = self.module.state_dict()[node.args[2].target] if node.args[2] is not None else torch.tensor(0.0)
+            bn_rm = self.module.state_dict()[node.args[3].target]
+            bn_rv = self.module.state_dict()[node.args[4].target]
+            bn_eps = node.args[7]
             if (
                 not isinstance(previous, Conv2D)
                 or type(previous.activation_function) is not Linear
                 or not self._is_used_once(previous)
-                or len(node.meta['val'].shape) != 4
             ):
-                msg = "Error: batch_norm only supported after a conv2d"
-                raise ValueError(msg)
+                if len(node.meta['val'].shape) != 4:
+                    msg = "Error: batch_norm only supported for four dimensions"
+                    raise ValueError(msg)
+                this_layer = BatchNormalization(
+                    original_name=node.name,
+                    idx=self.idx,
+                    size=node.meta['val'].numel(),
+                    input_shape=list(node.meta['val'].shape),
+                    epsilon=bn_eps,
+                    scale=bn_w.expand_as(bn_rm).numpy(),
+                    biases=bn_b.expand_as(bn_rm).numpy(),
+                    mean=bn_rm.numpy(),
+                    var=bn_rv.numpy(),
+                    activation_function=Linear(),
+                )
+                previous.next_layer.append(this_layer)
+                this_layer.previous_layer.append(previous)
+                self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
+                self.idx+=1
+                return
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-            bn_w = self.module.state_dict()[node.args[1].target] if node.args[1] is not None else torch.tensor(1.0)
-            bn_b = self.module.state_dict()[node.args[2].target] if node.args[2] is not None else torch.tensor(0.0)
-            bn_rm = self.module.state_dict()[node.args[3].target]
-            bn_rv = self.module.state_dict()[node.args[4].target]
-            bn_eps = node.args[7]
             bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
             conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
             conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
-- 
2.43.0


From 4fde00e6924f78baf51e2a6677fc74c41e71cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 72/81] fix: output the flattened values of the channels-last
 PyTorch programs in their order

---
 .../importers/PYTORCH_importer/parse_pytorch.py   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 23661aa..ae204b7 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -435,7 +435,20 @@ def load_pytorch(program : ExportedProgram):
     visitor = ShapeAwareVisitor()
     visitor.visit(program.module())
     # Only keep the layers the output depends on
-    output_layer = visitor.layerdic[visitor.output_name][0]
+    output_layer, output_shape = visitor.layerdic[visitor.output_name]
+    if len(output_shape) != 4 and visitor.data_format == "channels_last":
+        # The values of a flattened output are in the order of PyTorch
+        flatten = Flatten(
+            original_name=visitor.output_name + "_order",
+            idx=visitor.idx,
+            size=output_layer.size,
+            input_shape=extend_shape(output_shape),
+            data_format="channels_first",
+        )
+        output_layer.next_layer.append(flatten)
+        flatten.previous_layer.append(output_layer)
+        output_layer = flatten
+        visitor.layerdic[flatten.original_name] = (flatten, output_shape)
     needed = {output_layer.idx}
     to_visit = [output_layer]
     while to_visit:
-- 
2.43.0


From ea6794596fbf19848cd685bcfeadc1ca974683b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 73/81] fix: read the samples of quantized networks from a text
 file

---
 src/acetone_nnet/generator/neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 63e4865..adf4ab6 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -446,7 +446,7 @@ class CodeGenerator(ABC):
                     break
                 contents = json.loads(line)
                 contents = [self.c2data(c) for c in contents]
-                test_dataset.append(list(map(dtype, contents)))
+                test_dataset.append(list(map(np.dtype(dtype).type, contents)))
         return np.array(test_dataset)
 
     def get_input_shape(self: Self) -> list[int]:
-- 
2.43.0


From 79603516b5452cb6e8b243ffb679ae210e020a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 74/81] fix: read the external samples of quantized networks
 with the size of their type

---
 src/acetone_nnet/generator/neural_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index adf4ab6..ddb445b 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -720,7 +720,9 @@ class CodeGenerator(ABC):
                         "read_input": self.read_ext_input,
                         "verbose": self.verbose,
                         "input_format": (
-                            "%d"
+                            {1: "%hhd", 2: "%hd", 8: "%ld"}.get(
+                                np.dtype(self.data_type_py).itemsize, "%d",
+                            )
                             if np.issubdtype(self.data_type_py, np.integer)
                             else "%lf" if self.data_type == "double" else "%f"
                         ),
-- 
2.43.0


From e3f3342c248a55bdccc06332c1af057496adfee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 75/81] fix: print the outputs of quantized networks of 64 bits
 with all their digits

---
 src/acetone_nnet/generator/neural_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index ddb445b..407d614 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -727,7 +727,7 @@ class CodeGenerator(ABC):
                             else "%lf" if self.data_type == "double" else "%f"
                         ),
                         "format": (
-                            "%d"
+                            ("%ld" if np.dtype(self.data_type_py).itemsize == 8 else "%d")
                             if np.issubdtype(self.data_type_py, np.integer)
                             else "%a" if self.to_hex
                             else "%.17g" if self.data_type == "double" else "%.9g"
@@ -919,7 +919,9 @@ class CodeGenerator(ABC):
         if self.debug_mode in ["onnx", "keras"]:
             mustach_hash["debug_file"] = output_dir / "debug_file.txt"
             if np.issubdtype(self.data_type_py, np.integer):
-                mustach_hash["debug_format"] = "%d"
+                mustach_hash["debug_format"] = (
+                    "%ld" if np.dtype(self.data_type_py).itemsize == 8 else "%d"
+                )
             else:
                 mustach_hash["debug_format"] = "%.17g" if self.data_type == "double" else "%.9g"
 
-- 
2.43.0


From 7d2df5415261b61a4508610910390d9bb9d7cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 76/81] fix: compute the products of quantized values in the
 type of their sum

---
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 3 +++
 src/acetone_nnet/generator/neural_network.py              | 1 +
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 3f5c2bc..57a438d 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -60,6 +60,9 @@ class MatMulDefault(MatMul):
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
+        # The products of quantized values are computed in the type of their sum
+        mustach_hash["temp_cdtype"] = getattr(self, "temp_cdtype", None)
+
         with open(
             self.template_path / "layers" / "template_MatMul.c.tpl",
         ) as template_file:
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 407d614..f0e89bc 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1156,6 +1156,7 @@ class CodeGenerator(ABC):
                     l.qout = layer_qconf["out"]
                     logging.info(f"Quantize {l.name}_{l.idx} format {l.qparam}")
                     l.temp_pydtype = self.target_cfg["quantization"]["temp_pydtype"]
+                    l.temp_cdtype = self.target_cfg["quantization"]["temp_dtype"]
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
 
                 except KeyError:
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 384b48e..1c766f9 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += {{#temp_cdtype}}({{temp_cdtype}}){{/temp_cdtype}}ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From de68584d21b94a45c61452dc4e80cc71947f36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:43 +0000
Subject: [PATCH 77/81] fix: quantize the layers fused by the optimizations

---
 src/acetone_nnet/generator/neural_network.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index f0e89bc..26e1e2a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1113,9 +1113,12 @@ class CodeGenerator(ABC):
         if self.target_cfg is not None:
             for l in self.layers:
                 try:
-                    layer_qconf = self.target_cfg["quantization"]["layers"][
-                        l.original_name
-                    ]
+                    layers_qconf = self.target_cfg["quantization"]["layers"]
+                    # A fused layer keeps the format of the layer it comes from
+                    qname = l.original_name
+                    if qname not in layers_qconf:
+                        qname = qname.split(" fused with ")[0]
+                    layer_qconf = layers_qconf[qname]
                     if isinstance(l, ConstantLayer):
                         l.qparam = layer_qconf["out"]
                     else:
-- 
2.43.0


From 28d314d0b6796d6d9d50ace0e3dd33934427af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 78/81] fix: generate the Makefile after the files it refers
 to, even custom ones

---
 src/acetone_nnet/generator/neural_network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 26e1e2a..af8f6d6 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -191,6 +191,7 @@ class CodeGenerator(ABC):
 
         if custom_generation_functions is None:
             custom_generation_functions = {}
+        self.symtab = ""
         self.files_to_gen, self.generation_functions = self.select_generation_functions(custom_generation_functions)
 
 
@@ -330,6 +331,10 @@ class CodeGenerator(ABC):
                 file_names.extend(name for name, _ in custom_functions)
                 generation_functions[k] = [function for _, function in custom_functions]
 
+        if "Makefile" in generation_functions:
+            # The Makefile refers to the contents of the other files
+            generation_functions["Makefile"] = generation_functions.pop("Makefile")
+
         return file_names, generation_functions
 
     def select_layers_implementation(
-- 
2.43.0


From 5c0e06cd937b0409bb70973d0a160680c34aff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:20 +0000
Subject: [PATCH 79/81] fix: leave the lists of flags of the caller untouched
 when a target adds its own

---
 src/acetone_nnet/generator/neural_network.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index af8f6d6..f6e34f0 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -744,11 +744,18 @@ class CodeGenerator(ABC):
 
     def _get_makefile_properties(self) -> dict[str, str | list[str]]:
         """Get makefile properties."""
+
+        def as_new_list(flags: str | list[str]) -> list[str]:
+            # The flags of the target are added to the list
+            return [flags] if isinstance(flags, str) else list(flags)
+
         return {
             "compiler": self.makefile_properties.get("compiler", "gcc"),
-            "linker_flags": self.makefile_properties.get("linker_flags", ["-lm"]),
-            "compiler_flags": self.makefile_properties.get(
-                "compiler_flags", ["-g", "-w"],
+            "linker_flags": as_new_list(
+                self.makefile_properties.get("linker_flags", ["-lm"]),
+            ),
+            "compiler_flags": as_new_list(
+                self.makefile_properties.get("compiler_flags", ["-g", "-w"]),
             ),
         }
 
-- 
2.43.0


From 90a7c785ca229d42f6241b1e3a98e90706c46117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:58 +0000
Subject: [PATCH 80/81] fix: read the version of the default operator set,
 whatever its place among the imported ones

---
 .../importers/ONNX_importer/create_layer.py   | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6562632..506dc4d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -126,6 +126,15 @@ def look_for_initializer(
     return []
 
 
+# Return the version of the operators of the model (an onnx model)
+def get_opset(model: onnx.ModelProto) -> int:
+    """Return the version of the default operator set, whatever the other ones imported."""
+    versions = [
+        opset.version for opset in model.opset_import if opset.domain in ("", "ai.onnx")
+    ]
+    return versions[0] if versions else 1
+
+
 # Return a dictionary with {attribute: attribute_values}
 def extract_attributes(node: onnx.NodeProto) -> dict[str, Any]:
     """Return all attributes of an ONNX layer."""
@@ -297,7 +306,7 @@ def create_softmax(
     dict_output[node.output[0]] = idx
     check_dimensions(output_shape, node)
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         # The Softmax is computed over all the dimensions from the axis on
         rank = len(input_shape)
         first = attributes.get("axis", 1)
@@ -900,7 +909,7 @@ def create_reduce_sum(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -957,7 +966,7 @@ def create_reduce_max(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -1014,7 +1023,7 @@ def create_reduce_min(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -1071,7 +1080,7 @@ def create_reduce_mean(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -1128,7 +1137,7 @@ def create_reduce_prod(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-- 
2.43.0


From 16a1256e247962e3d96487da95419359fe880d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:33 +0000
Subject: [PATCH 81/81] fix: sort the layers without a recursion bounding the
 length of the graph

---
 src/acetone_nnet/graph/graph_interpretor.py | 23 ++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 7ee1f49..6b1c0c1 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -74,14 +74,23 @@ def parcours_prof_topo(
     visited_layers: set[int],
 ) -> None:
     """Sort layer in list of sorted layers."""
-    # The node is currently being sorted
+    # The nodes being sorted, with their successors left to visit
+    # (not a recursion, whose depth would bound the length of the graph)
     visited_layers.add(layer.idx)
-    for nxt_layer in layer.next_layer:
-        # The next_layer need to be found and sorted before the current node
-        if nxt_layer.idx not in visited_layers:
-            parcours_prof_topo(sorted_layers, nxt_layer, visited_layers)
-    # And is added to the list of sorted nodes
-    sorted_layers.insert(0, layer)
+    stack = [(layer, iter(layer.next_layer))]
+
+    while stack:
+        current_layer, next_layers = stack[-1]
+        for nxt_layer in next_layers:
+            # The next_layer need to be found and sorted before the current node
+            if nxt_layer.idx not in visited_layers:
+                visited_layers.add(nxt_layer.idx)
+                stack.append((nxt_layer, iter(nxt_layer.next_layer)))
+                break
+        else:
+            # And is added to the list of sorted nodes
+            sorted_layers.insert(0, current_layer)
+            stack.pop()
 
 
 def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
-- 
2.43.0

