From d501c03beb65da6b832d37ac1ccecdcab310e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 001/103] fix: FloorDiv and FloorMod round towards minus
 infinity for negative ints

---
 tf2onnx/onnx_opset/math.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9c49dad..b1c510a 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -523,6 +523,17 @@ class FloorDiv:
             ctx.copy_dtype(node.output[0], floor_res.output[0])
             ctx.copy_shape(node.output[0], floor_res.output[0])
 
+    @classmethod
+    def version_10(cls, ctx, node, **kwargs):
+        dtype = ctx.get_dtype(node.input[0])
+        if dtype in [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16, onnx_pb.TensorProto.INT32,
+                     onnx_pb.TensorProto.INT64]:
+            # Div truncates towards zero for ints. Removing the remainder (which has the sign of y) first makes it exact.
+            mod = ctx.make_node("Mod", [node.input[0], node.input[1]], op_name_scope=node.name)
+            sub = ctx.make_node("Sub", [node.input[0], mod.output[0]], op_name_scope=node.name)
+            ctx.replace_inputs(node, [sub.output[0], node.input[1]])
+        cls.version_6(ctx, node, **kwargs)
+
 
 @tf_op("FloorMod")
 class FloorMod:
@@ -542,6 +553,15 @@ class FloorMod:
         ctx.make_node(op_type="Sub", inputs=[node.input[0], mul.output[0]],
                       name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
 
+    @classmethod
+    def version_10(cls, ctx, node, **kwargs):
+        dtype = ctx.get_dtype(node.input[0])
+        if dtype in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
+            cls.version_7(ctx, node, **kwargs)
+        else:
+            # For ints the result of Mod has the sign of y, like FloorMod.
+            node.type = "Mod"
+
 
 @tf_op("Selu")
 class Selu:
-- 
2.43.0


From 5219e9c706d7f278398d7fa67d37e983593deab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 002/103] fix: Cumprod accepts a negative constant axis

---
 tf2onnx/onnx_opset/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index b1c510a..ba0a646 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -586,6 +586,8 @@ class CumProd:
         is_axis_const = axis_node.is_const()
         if is_axis_const: # we can compute axis value right now
             axis = axis_node.get_tensor_value()
+            if axis < 0:
+                axis += len(ctx.get_shape(node.input[0]))
             axis_node = ctx.make_const(utils.make_name("axis"), np.array([axis], dtype=np.int64))
         else:
             axis_node = ctx.make_node("Cast", inputs=[axis_node.output[0]], attr={"to": onnx_pb.TensorProto.INT64},
-- 
2.43.0


From 8e9d2e2bcaaceb379e62463dc9c195672ac5bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 003/103] fix: Atan2 keeps the shape of scalars

---
 tf2onnx/onnx_opset/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index ba0a646..f40eef3 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -973,7 +973,7 @@ class Atan2Op:
 
         one_node = ctx.make_const(
             utils.make_name("{}_one".format(node.name)),
-            np.array([1], dtype=np_dtype))
+            np.array(1, dtype=np_dtype))
 
         pib2_node = ctx.make_const(
             utils.make_name("{}_pi".format(node.name)),
-- 
2.43.0


From de5979b2d209b4feb29b183f00e1b20f656a8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 004/103] fix: RightShift keeps the sign of negative ints

---
 tf2onnx/onnx_opset/math.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index f40eef3..a2f6a35 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -827,6 +827,29 @@ class BitShift:
         dtypes = node.output_dtypes
         ctx.remove_node(node.name)
 
+        signed = [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16, onnx_pb.TensorProto.INT32]
+        if direction == "RIGHT" and dtypes[0] in signed:
+            # BitShift only has unsigned types and shifts zeros in. Negative values need x >> y == ~(~x >> y)
+            scope = node.name
+            x = ctx.make_node("Cast", [node.input[0]], attr={'to': onnx_pb.TensorProto.INT64}, op_name_scope=scope)
+            y = ctx.make_node("Cast", [node.input[1]], attr={'to': onnx_pb.TensorProto.UINT64}, op_name_scope=scope)
+            zero = ctx.make_const(utils.make_name(scope + "_zero"), np.array(0, np.int64)).output[0]
+            minus_one = ctx.make_const(utils.make_name(scope + "_minus_one"), np.array(-1, np.int64)).output[0]
+            is_neg = ctx.make_node("Less", [x.output[0], zero], op_name_scope=scope).output[0]
+
+            def flip_negative(inp):
+                flipped = ctx.make_node("Sub", [minus_one, inp], op_name_scope=scope).output[0]
+                return ctx.make_node("Where", [is_neg, flipped, inp], op_name_scope=scope).output[0]
+
+            non_neg = ctx.make_node("Cast", [flip_negative(x.output[0])], attr={'to': onnx_pb.TensorProto.UINT64},
+                                    op_name_scope=scope)
+            shift = ctx.make_node("BitShift", [non_neg.output[0], y.output[0]], attr={'direction': direction},
+                                  op_name_scope=scope)
+            shifted = ctx.make_node("Cast", shift.output, attr={'to': onnx_pb.TensorProto.INT64}, op_name_scope=scope)
+            ctx.make_node("Cast", [flip_negative(shifted.output[0])], attr={'to': dtypes[0]}, outputs=node.output,
+                          name=node.name, shapes=shapes, dtypes=dtypes)
+            return
+
         node = ctx.make_node("BitShift", inputs=node.input, outputs=node.output, name=node.name,
                              shapes=shapes, dtypes=dtypes, domain=constants.ONNX_DOMAIN, attr={'direction': direction})
 
-- 
2.43.0


From 8c1722fcf9f3f0f759a3b11e8eaf9c105d7b0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 005/103] fix: Roll accepts a vector with a single shift

---
 tf2onnx/onnx_opset/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da07549..7007d75 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -385,7 +385,9 @@ class Roll:
         else:
             shifts_casted = node.input[1]
 
-        if len(axes) == 1:
+        if len(axes) == 1 and ctx.get_rank(node.input[1]) == 1:
+            shifts_split = [shifts_casted]
+        elif len(axes) == 1:
             unsqueeze_node = GraphBuilder(ctx).make_unsqueeze(
                 {'data': shifts_casted, "axes": [0]}, op_name_scope=node.name, return_node=True)
             shifts_split = [unsqueeze_node.output[0]]
-- 
2.43.0


From 87631fd1dc67887d336fc8573f9f4251b2794c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 006/103] fix: Slice with a non-const size of -1 does not
 overflow for starts above 1

---
 tf2onnx/onnx_opset/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 7007d75..375e982 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -350,7 +350,9 @@ class Slice:
 
             size_are_neg_one_flag = ctx.make_node("Equal", [neg_one, size]).output[0]
             size_are_neg_one_flag = ctx.make_node("Cast", [size_are_neg_one_flag], attr={"to": size_dtype}).output[0]
-            value_to_add = ctx.make_node("Mul", [int_max, size_are_neg_one_flag]).output[0]
+            # int_max + starts would overflow
+            room_left = ctx.make_node("Sub", [int_max, starts]).output[0]
+            value_to_add = ctx.make_node("Mul", [room_left, size_are_neg_one_flag]).output[0]
             size_processed = ctx.make_node("Add", [size, value_to_add]).output[0]
             ends = ctx.make_node("Add", [starts, size_processed]).output[0]
 
-- 
2.43.0


From f416abc38e3e1c264d2850930a0e9f6bd47c2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 007/103] fix: StridedSlice from a negative begin to end 0 is
 empty

---
 tf2onnx/onnx_opset/tensor.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 375e982..71550b2 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -877,9 +877,6 @@ class StridedSlice:
             end_item = end[idx]
 
             # an implicit condition is stride == 1 (checked in above)
-            if begin_item < 0 and end_item == 0:
-                end_item = max_size
-
             mask = (shrink_axis_mask >> idx) & 1
             if mask != 0:
                 new_begin.append(begin_item)
-- 
2.43.0


From 020f69294d1268a8c64911f2e90f205fab7befdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 008/103] fix: StridedSlice with an ellipsis which stands for
 no dimension

---
 tf2onnx/onnx_opset/tensor.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 71550b2..3b33a49 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1014,7 +1014,7 @@ class StridedSlice:
 
             if ellipsis_mask:
                 unqueeze_at = []
-                ellipsis_gap = 0
+                ellipsis_gap = None
                 num_new = 0
                 end_mask = node.get_attr("end_mask")
                 end_mask = end_mask.i if end_mask is not None else 0
@@ -1030,7 +1030,7 @@ class StridedSlice:
                     if (ellipsis_mask >> bit) & 1:
                         ellipsis_gap = len(ctx.get_shape(input_x)) - param_rank + num_new + 1
                     elif (new_axis_mask >> bit) & 1:
-                        effective_bit = bit if not ellipsis_gap else bit + ellipsis_gap - 1
+                        effective_bit = bit if ellipsis_gap is None else bit + ellipsis_gap - 1
                         unqueeze_at.append(effective_bit)
                         begin_mask |= 1 << bit
                         end_mask |= 1 << bit
@@ -1038,6 +1038,27 @@ class StridedSlice:
             input_x = GraphBuilder(ctx).make_unsqueeze(
                 {'data': input_x, 'axes': unqueeze_at})
 
+        if ellipsis_mask:
+            input_shape = ctx.get_shape(input_x)
+            if input_shape is not None and len(input_shape) == param_rank - 1:
+                # The ellipsis stands for no dimension at all: drop its entry
+                pos = ellipsis_mask.bit_length() - 1
+                keep = ctx.make_const(utils.make_name("keep"),
+                                      np.array([i for i in range(param_rank) if i != pos], np.int64)).output[0]
+
+                def drop_entry(name):
+                    if ctx.is_const(name):
+                        vals = np.delete(ctx.get_tensor_value(name, as_list=False), pos)
+                        return ctx.make_const(utils.make_name("no_ellipsis"), vals).output[0]
+                    return ctx.make_node("Gather", [name, keep], op_name_scope=node.name).output[0]
+
+                def drop_bit(mask):
+                    return (mask & ((1 << pos) - 1)) | ((mask >> (pos + 1)) << pos)
+
+                begin, end, strides = drop_entry(begin), drop_entry(end), drop_entry(strides)
+                begin_mask, end_mask, shrink_axis_mask = [drop_bit(m) for m in [begin_mask, end_mask, shrink_axis_mask]]
+                ellipsis_mask = 0
+                param_rank -= 1
 
         # use in onnx graph to mask begin
         new_begin_mask = [1] * param_rank
-- 
2.43.0


From 2df68995b88c2ff69fa58ee6a1de3ca238b2ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 009/103] fix: StridedSlice begin_mask ignores the begin value
 for positive strides

---
 tf2onnx/onnx_opset/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 3b33a49..4f27b18 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1115,6 +1115,7 @@ class StridedSlice:
                 idx1 = np.where(new_begin_mask == 0)
                 idx2 = np.where(strides_vals < 0)
                 idx3 = np.intersect1d(idx1, idx2)
+                new_begin_vals[idx1] = 0
                 new_begin_vals[idx3] = max_size
                 begin = ctx.make_const(utils.make_name("begin_masked"), new_begin_vals).output[0]
             else:
@@ -1122,8 +1123,9 @@ class StridedSlice:
                 zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
                 max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
                 op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("And", [op1.output[0], begin_mask_const.output[0]], op_name_scope=node.name)
-                begin = ctx.make_node("Where", [op2.output[0], max_const.output[0], begin],
+                first = ctx.make_node("Where", [op1.output[0], max_const.output[0], zero_const.output[0]],
+                                      op_name_scope=node.name)
+                begin = ctx.make_node("Where", [begin_mask_const.output[0], first.output[0], begin],
                                       op_name_scope=node.name).output[0]
 
         # mask end
-- 
2.43.0


From 8ac27a9641c6ae813a677f71b068e07308b7e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 010/103] fix: SplitV with a size of -1 on an axis of unknown
 size

---
 tf2onnx/onnx_opset/tensor.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 4f27b18..afd7efa 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -751,7 +751,8 @@ class SplitV:
         if -1 in split:
             # negative split = use the remaining size
             shape = ctx.get_shape(node.input[0])
-            final_sum = shape[split_dims]
+            final_sum = shape[split_dims] if shape is not None else -1
+            utils.make_sure(final_sum >= 0, "SplitV with a size of -1 needs the size of axis %s", split_dims)
             sums = sum([i for i in split if i >= 0])
             for i, v in enumerate(split):
                 if v == -1:
@@ -768,7 +769,27 @@ class SplitV:
     @classmethod
     def version_13(cls, ctx, node, **kwargs):
         # Split now supports dynamic split lengths
-        if node.inputs[1].is_const():
+        split_dims = node.inputs[2].get_tensor_value()
+        shape = ctx.get_shape(node.input[0])
+        if node.inputs[1].is_const() and -1 in node.inputs[1].get_tensor_value() and shape is not None and \
+                shape[split_dims] == -1:
+            # The remaining size is only known at runtime
+            sizes = node.inputs[1].get_tensor_value(as_list=False).astype(np.int64)
+            pos = sizes.tolist().index(-1)
+            axis = split_dims + len(shape) if split_dims < 0 else split_dims
+            input_shape = ctx.make_node("Shape", [node.input[0]], op_name_scope=node.name).output[0]
+            dim = GraphBuilder(ctx).make_slice({"data": input_shape, "starts": [axis], "ends": [axis + 1], "axes": [0]})
+            known = ctx.make_const(utils.make_name("known_sizes"), np.array([sizes.sum() + 1], np.int64)).output[0]
+            parts = [ctx.make_node("Sub", [dim, known], op_name_scope=node.name).output[0]]
+            if pos > 0:
+                parts.insert(0, ctx.make_const(utils.make_name("sizes_before"), sizes[:pos]).output[0])
+            if pos + 1 < len(sizes):
+                parts.append(ctx.make_const(utils.make_name("sizes_after"), sizes[pos + 1:]).output[0])
+            split = ctx.make_node("Concat", parts, attr={"axis": 0}, op_name_scope=node.name).output[0]
+            node.type = "Split"
+            ctx.replace_inputs(node, [node.input[0], split])
+            node.set_attr("axis", split_dims)
+        elif node.inputs[1].is_const():
             # Call version 1 to deal with -1 cases
             cls.version_1(ctx, node, **kwargs)
             # Convert attr to input
-- 
2.43.0


From b63bcdd550127f6c7b0f7cfdd79cf02a85ac0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 011/103] fix: keep ReduceMean and ReduceMax of doubles, which
 have no pooling kernel

---
 tf2onnx/optimizer/global_pool_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/global_pool_optimizer.py b/tf2onnx/optimizer/global_pool_optimizer.py
index ec45903..34dc5ff 100644
--- a/tf2onnx/optimizer/global_pool_optimizer.py
+++ b/tf2onnx/optimizer/global_pool_optimizer.py
@@ -34,7 +34,8 @@ class GlobalPoolOptimizer(GraphOptimizerBase):
         return graph
 
     def _optimize_reduce(self, node, graph):
-        if graph.get_dtype(node.output[0]) not in [TensorProto.FLOAT, TensorProto.DOUBLE]:
+        if graph.get_dtype(node.output[0]) != TensorProto.FLOAT:
+            # the runtimes only implement the pooling ops for float
             return False
         if node.output[0] in graph.outputs:
             # Replacement is unsafe
-- 
2.43.0


From aa75fe4cacf079750ad0423fbb1757f916dbfd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 012/103] fix: transposed convolution pads like TensorFlow for
 odd and negative total padding

---
 tf2onnx/onnx_opset/nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..93d5b3c 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -472,6 +472,8 @@ class ConvTranspose:
                             "output dims cannot be smaller than input dims.")
             if -1 in input_dims:
                 node.set_attr("output_shape", new_output_shape)
+                # like tf, put the larger part of an odd padding at the end
+                node.set_attr("auto_pad", "SAME_UPPER")
             else:
                 if "strides" in node.attr:
                     strides = parse_dims_attr(node, node.get_attr("strides").ints, spatial)
@@ -490,7 +492,8 @@ class ConvTranspose:
                                         - new_output_shape[i])
                     start_i = i
                     end_i = i + spatial
-                    pads[start_i] = int(total_padding[i] / 2)
+                    # if the output is larger than what the kernel reaches, the rest is at the end
+                    pads[start_i] = max(total_padding[i], 0) // 2
                     pads[end_i] = total_padding[i] - pads[start_i]
                 node.set_attr("pads", pads)
                 node.set_attr("auto_pad", "NOTSET")
-- 
2.43.0


From 6456e16c7f7b4cc7b005189899e4d75790279824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 013/103] fix: MaxPoolWithArgmax with int32 indices

---
 tf2onnx/onnx_opset/nn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 93d5b3c..3da5ec8 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -781,6 +781,10 @@ class MaxPoolWithArgmaxOp:
             result = ctx.make_node("Add", [xyc, n_range_scale]).output[0]
         else:
             result = xyc
+        argmax_dtype = ctx.get_dtype(node.output[1])
+        if argmax_dtype is not None and argmax_dtype != TensorProto.INT64:
+            result = ctx.make_node("Cast", [result], attr={'to': argmax_dtype}).output[0]
+            ctx.set_dtype(node.output[1], TensorProto.INT64)
         ctx.replace_all_inputs(node.output[1], result, ops=consumers)
 
         add_padding(ctx, node, kernel_shape, strides)
-- 
2.43.0


From 3719c3dea6954d640cbd83c8a51e7c0232aab27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 014/103] fix: reshape optimizer keeps the shape of graph
 outputs

---
 tf2onnx/optimizer/reshape_optimizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 3e5974b..f12c681 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -93,6 +93,12 @@ class ReshapeOptimizer(GraphOptimizerBase):
             new_shape = [get_reshape_dim(v, i, shift) for i, v in enumerate(symbolic_shape)]
         if new_shape.count(-1) > 1:
             return False
+        if inp_shape == [-1] and max(shift, 0) + len(new_shape) > 1:
+            # This is a mismatch.
+            return False
+        if shift > 0 and node.output[0] in graph.outputs:
+            # The squeeze can't take over the name of a graph output
+            return False
 
         new_reshape_shape = None
         if shift > 0:
@@ -103,9 +109,6 @@ class ReshapeOptimizer(GraphOptimizerBase):
             new_reshape_shape = [1] * shift + graph.get_shape(node.output[0])
             graph.insert_node_on_output(squeeze_node, node.output[0])
         const_shape = graph.make_const(utils.make_name(node.name + "_shape"), np.array(new_shape, np.int64)).output[0]
-        if inp_shape == [-1] and len(new_shape) > 1:
-            # This is a mismatch.
-            return False
         if new_reshape_shape is not None:
             graph.set_shape(node.output[0], new_reshape_shape)
         graph.replace_inputs(node, [node.input[0], const_shape])
-- 
2.43.0


From 934af8c929541029318d17b5b002b6e80af83863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 015/103] fix: FakeQuant rounds its zero point like TensorFlow

---
 tf2onnx/onnx_opset/quantize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/quantize.py b/tf2onnx/onnx_opset/quantize.py
index b4f5fac..a469e8b 100644
--- a/tf2onnx/onnx_opset/quantize.py
+++ b/tf2onnx/onnx_opset/quantize.py
@@ -48,8 +48,10 @@ class FakeQuantWithMinMaxArgs:
             "Unable to convert node FakeQuantWithMinMaxArgs with "
             "num_bits=%r", num_bits)
 
-        scale = (amax - amin) / (2 ** num_bits - 1)
-        min_adj = np.around(amin / scale)
+        # compute in float32 like tf, and round the zero point half up
+        amin, amax = np.float32(amin), np.float32(amax)
+        scale = (amax - amin) / np.float32(2 ** num_bits - 1)
+        min_adj = np.ceil(amin / scale - np.float32(0.5))
 
         dtype = ctx.get_dtype(node.input[0])
         shape = ctx.get_shape(node.input[0])
-- 
2.43.0


From f9fcbae8f136b0a50e106b5c2202f72135c2dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 016/103] fix: NonMaxSuppressionV5 refuses a soft_nms_sigma
 between 0 and 1

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index afd7efa..fe6698b 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1927,7 +1927,7 @@ class NonMaxSuppression:
         dtypes = [[ctx.get_dtype(output)] for output in node.output]
         shapes = [[ctx.get_shape(output)] for output in node.output]
         max_output_size = node.input[2]
-        utils.make_sure(len(node.inputs) <= 5 or int(node.inputs[5].get_tensor_value(False)) == 0,
+        utils.make_sure(len(node.inputs) <= 5 or float(node.inputs[5].get_tensor_value(False)) == 0,
                         "soft_nms_sigma must be 0")
         ctx.remove_node(node.name)
         new_nonmaxsurppress = ctx.make_node("NonMaxSuppression", node.input[: 5]).output[0]
-- 
2.43.0


From dd459c124089468c7986f486ec6aaedffd0a4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 017/103] fix: ResizeBicubic without half pixel centers uses
 TensorFlow's legacy weights

---
 tf2onnx/onnx_opset/nn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 3da5ec8..a04d0c1 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1399,8 +1399,12 @@ class Resize:
             mode = "linear"
         elif node.type == "ResizeBicubic":
             mode = "cubic"
-            cubic_coeff_a = -0.5
-            exclude_outside = True
+            if node.get_attr_value("half_pixel_centers", False):
+                cubic_coeff_a = -0.5
+                exclude_outside = True
+            else:
+                # The legacy kernel uses other coefficients and repeats the border.
+                cubic_coeff_a = -0.75
         else:
             mode = "nearest"
         roi = ctx.make_const(utils.make_name("roi"), np.array([]).astype(np.float32))
-- 
2.43.0


From aa2efe4bff35779b0da9558cbce5dd0ea1e508ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 018/103] fix: AdjustSaturation puts the channels back in order

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index a04d0c1..bbe7665 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1576,7 +1576,7 @@ class AdjustSaturation:
         new_mid = ctx.make_node("Add", [new_min, new_delta2]).output[0]
         new_ordered = ctx.make_node("Concat", [max_c, new_mid, new_min], attr={'axis': -1}).output[0]
         # Now put it back in order
-        result = ctx.make_node("GatherElements", [new_ordered, indices], attr={'axis': -1}).output[0]
+        result = ctx.make_node("ScatterElements", [images, indices, new_ordered], attr={'axis': -1}).output[0]
         ctx.replace_all_inputs(node.output[0], result)
         ctx.remove_node(node.name)
 
-- 
2.43.0


From 787344319bbb639c9f1110faa4589ddc8358f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 019/103] fix: CropAndResize to nearest rounds ties like
 TensorFlow

---
 tf2onnx/onnx_opset/nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index bbe7665..1239c2e 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1333,6 +1333,7 @@ class CropAndResize:
         resized_x = g.make_node("Resize", [transposed_x.output[0], final_roi.output[0], const_empty_float.output[0],
                                            final_crop_size.output[0]],
                                 attr={"mode": mode, "extrapolation_value": extrapolation_value,
+                                      "nearest_mode": "round_prefer_ceil",
                                       "coordinate_transformation_mode": "tf_crop_and_resize"})
         recovered_x = g.make_node("Transpose", [resized_x.output[0]], attr={'perm': constants.NCHW_TO_NHWC})
         squeeze_x = GraphBuilder(g).make_squeeze({'data': recovered_x.output[0], 'axes': [0]}, return_node=True)
-- 
2.43.0


From f07398e03cd986654c4f87c74559ff271bf09a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 020/103] fix: a function used by several If or While nodes is
 converted for each of them

---
 tf2onnx/onnx_opset/controlflow.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..5e9e6bd 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -267,7 +267,8 @@ class StatelessIfOp:
         branches = {}
         for branch in ["then_branch", "else_branch"]:
             func_name = node.get_attr_str(branch)
-            g = find_function(func_name)
+            # the function might be used by other nodes as well
+            g = copy.deepcopy(find_function(func_name))
             g.parent_graph = ctx
             wire_if_branch(ctx, g, inputs, output_shapes, output_dtypes, func_name, node.name)
             branches[branch] = g
@@ -295,7 +296,8 @@ class IfOp:
         branches = {}
         for branch in ["then_branch", "else_branch"]:
             func_name = node.get_attr_str(branch)
-            g = find_function(func_name)
+            # the function might be used by other nodes as well
+            g = copy.deepcopy(find_function(func_name))
             g.parent_graph = ctx
             wire_if_branch(ctx, g, inputs, output_shapes, output_dtypes, func_name, node.name)
             branches[branch] = g
@@ -416,11 +418,12 @@ class While:
             maximum_iterations_m = cast_node.output[0]
 
         cond_name = node.get_attr_str("cond")
-        cond_graph = find_function(cond_name)
+        # the functions might be used by other nodes as well
+        cond_graph = copy.deepcopy(find_function(cond_name))
         cond_graph.parent_graph = ctx
 
         body_name = node.get_attr_str("body")
-        body = find_function(body_name)
+        body = copy.deepcopy(find_function(body_name))
         body.parent_graph = ctx
 
         loop_vars = [] # passed into the loop
-- 
2.43.0


From 4f550e6f6888051213bf99339651f00890c17b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 021/103] fix: transposed matmul of ints

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index a2f6a35..f3b5ab3 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -381,8 +381,8 @@ class MatMul:
         if any(attrs_val[2:]):
             # conjugation operation on complex data not supported in onnx for now
             # so if it's complex than raise exception
-            if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
-                raise ValueError("dtype " + dtype + " is not supported in onnx matmul for now")
+            if dtype in [onnx_pb.TensorProto.COMPLEX64, onnx_pb.TensorProto.COMPLEX128]:
+                raise ValueError("dtype " + str(dtype) + " is not supported in onnx matmul for now")
 
         transpose_a = (attrs_val[0] + attrs_val[2] + attrs_val[4]) % 2
         transpose_b = (attrs_val[1] + attrs_val[3] + attrs_val[5]) % 2
-- 
2.43.0


From 3e5054aa6dd0920658e4abbd3afa27596322bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 022/103] fix: matmul refuses to drop a transpose of a tensor
 of unknown rank

---
 tf2onnx/onnx_opset/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index f3b5ab3..59bff10 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -389,6 +389,7 @@ class MatMul:
 
         if transpose_a != 0:
             shape = ctx.get_shape(node.input[0])
+            utils.make_sure(shape is not None, "%s needs the rank of its inputs to transpose them", node.name)
             if shape:
                 perm = list(range(0, len(shape)))
                 tmp = perm[-1]
@@ -398,6 +399,7 @@ class MatMul:
 
         if transpose_b != 0:
             shape = ctx.get_shape(node.input[1])
+            utils.make_sure(shape is not None, "%s needs the rank of its inputs to transpose them", node.name)
             if shape:
                 perm = list(range(0, len(shape)))
                 tmp = perm[-1]
-- 
2.43.0


From 2855f2f6d8971f7fc99d6c2aa53e7bca25c7f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 023/103] fix: einsum keeps letters apart which differ only in
 case

---
 tf2onnx/onnx_opset/math.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 59bff10..4fd8da6 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -6,6 +6,7 @@ math
 """
 
 import logging
+import string
 
 import numpy as np
 from onnx import onnx_pb
@@ -883,10 +884,22 @@ class SquaredDistance:
 
 @tf_op("Einsum")
 class Einsum:
+    @classmethod
+    def lower_equation(cls, equation):
+        """Rename upper case letters to lower case ones, without merging different letters."""
+        used = set(equation)
+        renamed = {}
+        for c in sorted(c for c in used if c.isupper()):
+            free = [x for x in c.lower() + string.ascii_lowercase if x not in used]
+            utils.make_sure(len(free) > 0, "Einsum equation %r has too many letters", equation)
+            renamed[c] = free[0]
+            used.add(free[0])
+        return "".join(renamed.get(c, c) for c in equation)
+
     @classmethod
     def version_12(cls, ctx, node, **kwargs):
         del node.attr["N"]
-        node.attr["equation"].s = node.attr["equation"].s.lower()
+        node.attr["equation"].s = cls.lower_equation(node.attr["equation"].s.decode()).encode()
         def should_replace_with_matmul():
             # True is 2nd inp is const and eqn is ...ik,kj->...ij (possibly transpose 2nd inp)
             # When the 2nd input is const, ort pre-packs the Matmul but not Einsum so this is faster
-- 
2.43.0


From 20bd87b638537fb5c1a4302566def5911a3653fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 024/103] fix: einsum decomposition keeps scalar operands

---
 tf2onnx/optimizer/einsum_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..a1f79f0 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -1381,7 +1381,7 @@ def analyse_einsum_equation(equation):
         p & \\text{p is position of letter j in equation i}
         \\end{array}\\right.
     """
-    spl = equation.strip(' ,').split("->")
+    spl = equation.strip(' ').split("->")
     if len(spl) != 2 or len(spl[1]) == 0 or len(spl[0]) == 0:
         raise NotImplementedError(
             "The function only implements the case when there are "
-- 
2.43.0


From 223f7b64a94ad893c71bb0224992de7ea378ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 025/103] fix: rfft of a vector

---
 tf2onnx/onnx_opset/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index 1fd2700..826cb50 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -124,7 +124,7 @@ class CommonFFTOp:
             onnx_dtype = ctx.get_dtype(input_name)
             utils.make_sure(onnx_dtype in CommonFFTOp.supported_dtypes, "Unsupported input type.")
             shape = ctx.get_shape(node.input[0])
-            if shape is None or len(shape) > 2:
+            if shape is None or len(shape) != 2:
                 if shape is None or min(shape) <= 0:
                     two = ctx.make_const(name=utils.make_name('FFT_two'),
                                          np_val=np.array([2], dtype=np.int64))
-- 
2.43.0


From 52d79fd00d0591b175885bd862b627a086300e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 026/103] fix: MatrixDiagPart slices the last two axes

---
 tf2onnx/onnx_opset/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index fe6698b..748e372 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3213,8 +3213,8 @@ class MatrixDiagPart:
     @classmethod
     def any_version(cls, opset, ctx, node, **kwargs):
         # MatrixDiagPart by slice and gather
-        minus_two_one, minus_two, minus_one, zeo, zeo_zeo, one, two, two_one = \
-            [n.output[0] for n in ctx.make_consts([[-2, -1], [-2], [-1], [0], [0, 0], [1], [2], [2, 1]])]
+        minus_two_one, minus_two, minus_one, zeo, zeo_zeo, one, two = \
+            [n.output[0] for n in ctx.make_consts([[-2, -1], [-2], [-1], [0], [0, 0], [1], [2]])]
         zeo_, one_ = [n.output[0] for n in ctx.make_consts([0, 1])]
 
         input_shape = ctx.make_node('Shape', [node.input[0]])
@@ -3229,7 +3229,7 @@ class MatrixDiagPart:
         min_matrice_dim = ctx.make_node('Cast', [min_matrice_dim_float.output[0]], attr={'to': TensorProto.INT64})
         double_matrice_dim = ctx.make_node('Concat', [min_matrice_dim.output[0], min_matrice_dim.output[0]],
                                            attr={'axis': -1})
-        sliced_input = ctx.make_node('Slice', [node.input[0], zeo_zeo, double_matrice_dim.output[0], two_one])
+        sliced_input = ctx.make_node('Slice', [node.input[0], zeo_zeo, double_matrice_dim.output[0], minus_two_one])
         sliced_input_shape = ctx.make_node('Shape', [sliced_input.output[0]])
         sliced_input_shape_half = ctx.make_node('Slice', [sliced_input_shape.output[0], zeo,
                                                           minus_one])
-- 
2.43.0


From 3f3345334f501bcbde37134da9af9cc9ec0e0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 027/103] fix: MatrixDiag of a single diagonal with a batch

---
 tf2onnx/onnx_opset/tensor.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 748e372..2c922b1 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3678,7 +3678,8 @@ class MatrixDiag:
             # unsqueeze diag if necessary
             diag = node.input[0]
             shape = ctx.get_shape(diag)
-            if len(shape) == 1:
+            rank = len(shape)
+            if rank == 1:
                 if ctx.opset < 13:
                     diag = mknode("Unsqueeze", [diag], attr={"axes": [0]})
                 else:
@@ -3686,14 +3687,16 @@ class MatrixDiag:
                 shape = [1] + shape
                 ctx.set_shape(diag, shape)
 
-            diag_shape = mknode("Shape", [diag])
-            diag_depth = mknode("Slice", [diag_shape, minus_two, minus_one])
             k = normalize(node.input[1]) if argc > 1 else zeo
             k_min = GraphBuilder(ctx).make_reduce_min({"data": k})
             k_max = GraphBuilder(ctx).make_reduce_max({"data": k})
             k_max_nxt = mknode("Add", [k_max, one])
+            if rank == 1:
+                # a single diagonal without batch, which now is the only row
+                return diag, k, k_min, k_max, k_max_nxt
             k_depth = mknode("Sub", [k_max_nxt, k_min])
-            equal = mknode("Equal", [k_depth, diag_depth])
+            # only a single diagonal has no dimension for the number of diagonals
+            many = mknode("Greater", [k_depth, one])
 
             def id_diag():
                 g = ctx.create_new_graph_with_same_config()
@@ -3709,12 +3712,11 @@ class MatrixDiag:
                     ex = mknode2(g, "Unsqueeze", [diag], attr={"axes": [-2]})
                 else:
                     ex = mknode2(g, "Unsqueeze", [diag, squeeze_axes_2])
-                rank = len(ctx.get_shape(diag)) + 1
-                g.add_graph_output(ex, ctx.get_dtype(node.input[0]), [-1] * rank)
+                g.add_graph_output(ex, ctx.get_dtype(node.input[0]), [-1] * (rank + 1))
                 return g
 
             branches = {"then_branch": id_diag(), "else_branch": ex_diag()}
-            expand_diag = ctx.make_node("If", [equal], branches=branches)
+            expand_diag = ctx.make_node("If", [many], branches=branches)
             return expand_diag.output[0], k, k_min, k_max, k_max_nxt
 
         def squeeze_12(name):
-- 
2.43.0


From 04f06589d2db2575df48a87f21ef2d2b4432dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 028/103] fix: MatrixSetDiag knows the shape of its diagonal

---
 tf2onnx/onnx_opset/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 2c922b1..52c1419 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -4039,6 +4039,7 @@ class MatrixSetDiagV3:
 
         # make matrix of bool
         ctx.set_dtype(ones_diag.output[0], TensorProto.INT64)
+        ctx.set_shape(ones_diag.output[0], ctx.get_shape(diag))
         ones_matrix = ctx.make_node("MatrixDiagV3", [ones_diag.output[0], k, row, col, zeo], attr,
                                     shapes=[ctx.get_shape(x)], dtypes=[ctx.get_dtype(x)])
         MatrixDiag.version_12(ctx, ones_matrix)
-- 
2.43.0


From fb9281ce3e2bbc1ab52e0dd6ad6a5738cc73c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 029/103] fix: MatrixBandPart with negative non-const bounds,
 bools and values which are not finite

---
 tf2onnx/onnx_opset/nn.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 1239c2e..c550cad 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1663,7 +1663,18 @@ class MatrixBandPart:
         dtypes = node.output_dtypes
         dtype = ctx.get_dtype(node.input[0])
         data = node.input[0]
-        if dtype == TensorProto.BOOL:
+        if ctx.opset >= 9:
+            # select instead of multiplying, since inf and nan outside of the band become 0 too
+            mask = ctx.make_node("Cast", inputs=mask.output, attr={'to': TensorProto.BOOL}).output[0]
+            if dtype == TensorProto.BOOL:
+                op_type, inputs = "And", [mask, data]
+            else:
+                np_dtype = utils.map_onnx_to_numpy_type(dtype)
+                zero = ctx.make_const(utils.make_name("zero"), np.array(0, dtype=np_dtype)).output[0]
+                op_type, inputs = "Where", [mask, data, zero]
+            ctx.remove_node(node.name)
+            ctx.make_node(op_type, inputs=inputs, name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+        elif dtype == TensorProto.BOOL:
             # bool is not supported for 'Mul', so convert mask and input supported dtype
             mask = ctx.make_node("Cast", inputs=mask.output, attr={'to': TensorProto.FLOAT}).output[0]
             data = ctx.make_node("Cast", [data], attr={'to': TensorProto.FLOAT}).output[0]
@@ -1757,7 +1768,6 @@ class MatrixBandPart:
         data, num_lower, num_upper = node.input
         rank = ctx.get_rank(data)
         int_max_val = utils.get_max_value(np.int64)
-        dtype = ctx.get_dtype(data)
         if rank == 2:
             shape = ctx.make_node("Shape", [data]).output[0]
         else:
@@ -1765,12 +1775,9 @@ class MatrixBandPart:
             shape = GraphBuilder(ctx).make_slice(
                 {'data': whole_shape, 'starts': [-2], 'ends': [int_max_val], 'axes': [0]})
         if num_lower_const == 0 and num_upper_const == 0:
-            if rank == 2:
-                identity_node = ctx.make_node("EyeLike", [data])
-            else:
-                zero_tensor = helper.make_tensor("value", dtype, dims=[1], vals=[0])
-                const_of_shape = ctx.make_node("ConstantOfShape", [shape], attr={'value': zero_tensor}).output[0]
-                identity_node = ctx.make_node("EyeLike", [const_of_shape])
+            zero_tensor = helper.make_tensor("value", TensorProto.FLOAT, dims=[1], vals=[0])
+            const_of_shape = ctx.make_node("ConstantOfShape", [shape], attr={'value': zero_tensor}).output[0]
+            identity_node = ctx.make_node("EyeLike", [const_of_shape])
             cls._apply_mask_and_transform(ctx, node, identity_node)
             return
         zero_const = ctx.make_const(utils.make_name("zero"), np.array(0, np.int64)).output[0]
@@ -1794,6 +1801,10 @@ class MatrixBandPart:
                 num_upper = ctx.make_node("Cast", [num_upper], attr={'to': TensorProto.INT64}).output[0]
             greater = ctx.make_node("Greater", [idx_diff, num_upper]).output[0]
             less_or_equal = ctx.make_node("Not", [greater])
+            if num_upper_const is None:
+                # a negative number keeps the entire upper triangle
+                negative = ctx.make_node("Less", [num_upper, zero_const]).output[0]
+                less_or_equal = ctx.make_node("Or", [negative, less_or_equal.output[0]])
             conditions.append(less_or_equal)
         if num_lower_const is None or num_lower_const >= 0:
             if ctx.get_dtype(num_lower) != TensorProto.INT64:
@@ -1801,6 +1812,10 @@ class MatrixBandPart:
             num_lower_neg = ctx.make_node("Neg", [num_lower]).output[0]
             greater = ctx.make_node("Greater", [num_lower_neg, idx_diff]).output[0]
             less_or_equal = ctx.make_node("Not", [greater])
+            if num_lower_const is None:
+                # a negative number keeps the entire lower triangle
+                negative = ctx.make_node("Less", [num_lower, zero_const]).output[0]
+                less_or_equal = ctx.make_node("Or", [negative, less_or_equal.output[0]])
             conditions.append(less_or_equal)
         if len(conditions) == 0:
             node.type = "Identity"
-- 
2.43.0


From e487c4c156ffde17541b345d65ede2639f07d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 030/103] fix: UnsortedSegmentMin/Max of ints convert and empty
 segments get the finite limits

---
 tf2onnx/onnx_opset/reduction.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 7978e97..58613f2 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -199,6 +199,7 @@ class SegmentSum():
         node_inputs = node.input.copy()
         num_segments_specified = False
         num_segs_const = None
+        is_unsorted = node.type.startswith("Unsorted")
         if node.type.endswith("WithNumSegments") or node.type.startswith("Unsorted"):
             num_segments_specified = True
             num_segments = node_inputs.pop()
@@ -242,16 +243,20 @@ class SegmentSum():
             identity_value = np.array(1, dtype=data_np_dtype)
         elif node.type == "SegmentMax":
             onnx_op = "ReduceMax"
-            if data_is_float:
+            # tensorflow fills empty segments with the lowest value
+            data_info = np.finfo(data_np_dtype) if data_is_float else np.iinfo(data_np_dtype)
+            if data_is_float and not is_unsorted:
                 identity_value = np.array('-inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).min
+                identity_value = np.array(data_info.min, dtype=data_np_dtype)
         elif node.type == "SegmentMin":
             onnx_op = "ReduceMin"
-            if data_is_float:
+            # tensorflow fills empty segments with the highest value
+            data_info = np.finfo(data_np_dtype) if data_is_float else np.iinfo(data_np_dtype)
+            if data_is_float and not is_unsorted:
                 identity_value = np.array('inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).max
+                identity_value = np.array(data_info.max, dtype=data_np_dtype)
 
         if not num_segments_specified:
             max_segment = GraphBuilder(ctx).make_reduce_max({"data": segment_inp, "axes": [0], "keepdims": 0})
-- 
2.43.0


From cf07796b4d79c726d141c8f8e69e06445e83e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 031/103] fix: sorted segment ops give 0 for the segments that
 are missing

---
 tf2onnx/onnx_opset/reduction.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 58613f2..03d63ef 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -276,7 +276,9 @@ class SegmentSum():
 
         max_cnt = GraphBuilder(ctx).make_reduce_max({"data": seg_cnts_sorted, "axes": [0], "keepdims": True})
 
-        if node.type in ["SegmentMean", "SegmentSqrtN"]:
+        # without num_segments, tensorflow fills the empty segments of these ops with zeros
+        zero_empty_segments = not num_segments_specified and node.type in ["SegmentMax", "SegmentMin"]
+        if node.type in ["SegmentMean", "SegmentSqrtN"] or zero_empty_segments:
             zero_tensor = helper.make_tensor("value", onnx_pb.TensorProto.INT64, dims=[1], vals=[0])
             if num_segs_const is not None:
                 zeros = ctx.make_const(utils.make_name("zeros"), np.zeros([num_segs_const], np.int64)).output[0]
@@ -284,6 +286,7 @@ class SegmentSum():
                 zeros = ctx.make_node("ConstantOfShape", [num_segments_unsq], attr={'value': zero_tensor}).output[0]
             seg_cnts = ctx.make_node("ScatterElements", [zeros, seg_values, seg_cnts_sorted],
                                      attr={'axis': 0}).output[0]
+        if node.type in ["SegmentMean", "SegmentSqrtN"]:
             seg_cnts_float = ctx.make_node("Cast", [seg_cnts], attr={'to': data_dtype}).output[0]
         if node.type == "SegmentMean":
             scaling_amt = seg_cnts_float
@@ -292,9 +295,9 @@ class SegmentSum():
         else:
             scaling_amt = None
 
-        if scaling_amt is not None and num_segments_specified:
-            # If empty segments are possible, we must avoid division by zero
-            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=np.float32))
+        if scaling_amt is not None:
+            # Empty segments are possible, we must avoid division by zero
+            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=data_np_dtype))
             scaling_amt = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
 
 
@@ -330,6 +333,9 @@ class SegmentSum():
         else:
             reduction_result = GraphBuilder(ctx)._make_reduce_op(
                 onnx_op, 18, {"data": data_grid, "axes": [1], "keepdims": False}, op_name_scope=node.name)
+        if zero_empty_segments:
+            zero_cnt = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=np.int64)).output[0]
+            scaling_amt = ctx.make_node("Equal", [seg_cnts, zero_cnt]).output[0]
         if scaling_amt is not None:
             if data_rank is None:
                 # Left pad scale to match data rank
@@ -342,6 +348,10 @@ class SegmentSum():
             elif data_rank != 1:
                 scaling_amt = GraphBuilder(ctx).make_unsqueeze(
                     {'data': scaling_amt, 'axes': list(range(1, data_rank))})
+        if zero_empty_segments:
+            zero_data = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=data_np_dtype)).output[0]
+            reduction_result = ctx.make_node("Where", [scaling_amt, zero_data, reduction_result]).output[0]
+        elif scaling_amt is not None:
             reduction_result = ctx.make_node("Div", [reduction_result, scaling_amt]).output[0]
 
         ctx.replace_all_inputs(node.output[0], reduction_result)
-- 
2.43.0


From 021360e9383d39cf1603ceed41af9e7cf49903fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 032/103] fix: InvertPermutation of int32 casts the int64
 indices back

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 4fd8da6..c96095b 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1097,9 +1097,10 @@ class InvertPermutationOp:
 
         ctx.remove_node(node.name)
 
+        # the indices TopK returns are int64
         last_node = ctx.make_node(
-            "Identity", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
-            shapes=[shape], dtypes=[onnx_dtype])
+            "Cast", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
+            attr={"to": onnx_dtype}, shapes=[shape], dtypes=[onnx_dtype])
 
         ctx.replace_all_inputs(node.output[0], last_node.output[0])  # ops=ctx.get_nodes()
 
-- 
2.43.0


From 1ff63c35fcd5369cd3079aeed275b6f504522852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 033/103] fix: integer RaggedRange gives an empty row when the
 limit lies behind the start

---
 tf2onnx/onnx_opset/tensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 52c1419..012c9b4 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2741,8 +2741,13 @@ class RaggedRange:
             mul_node = ctx.make_node("Mul", [div_node, deltas_cast]).output[0]
             eq_node = ctx.make_node("Equal", [mul_node, sub_node]).output[0]
             ne_node = ctx.make_node("Not", [eq_node]).output[0]
-            # we want to round up if it isn't evenly divisible
-            offset = ctx.make_node("Cast", [ne_node], attr={'to': TensorProto.INT64}).output[0]
+            # we want to round up if it isn't evenly divisible. A negative quotient is already rounded up.
+            zero_int64 = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=np.int64)).output[0]
+            sub_pos = ctx.make_node("Greater", [sub_node, zero_int64]).output[0]
+            delta_pos = ctx.make_node("Greater", [deltas_cast, zero_int64]).output[0]
+            same_sign = ctx.make_node("Equal", [sub_pos, delta_pos]).output[0]
+            round_up = ctx.make_node("And", [ne_node, same_sign]).output[0]
+            offset = ctx.make_node("Cast", [round_up], attr={'to': TensorProto.INT64}).output[0]
             row_lens = ctx.make_node("Add", [div_node, offset]).output[0]
 
         const_zero_int64 = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=np.int64)).output[0]
-- 
2.43.0


From 4942f5374bdf82483a06fe33397d89504c6979ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 034/103] fix: DynamicStitch with repeated indices has
 max(indices) + 1 rows

---
 tf2onnx/onnx_opset/tensor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 012c9b4..154f2cd 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3192,7 +3192,17 @@ class DynamicStitch:
         expanded_indices = ctx.make_node("Expand", [unsqueezed_indices.output[0], data_shape.output[0]])
 
         zero_tensor = helper.make_tensor("value", dtype, dims=[1], vals=[0])
-        zeros_of_shape = ctx.make_node("ConstantOfShape", [data_shape.output[0]], attr={"value": zero_tensor})
+        # An index can occur several times, the number of rows is max(indices) + 1
+        neg_one = ctx.make_const(utils.make_name("const_neg_one"), np.array([-1], dtype=np.int64)).output[0]
+        one = ctx.make_const(utils.make_name("const_one"), np.array([1], dtype=np.int64)).output[0]
+        indices_and_neg_one = ctx.make_node("Concat", [concat_indices_int64.output[0], neg_one], attr={'axis': 0})
+        max_index = GraphBuilder(ctx).make_reduce_max(
+            {"data": indices_and_neg_one.output[0], "axes": [0], "keepdims": 1})
+        num_rows = ctx.make_node("Add", [max_index, one]).output[0]
+        row_shape = GraphBuilder(ctx).make_slice(
+            {"data": data_shape.output[0], "starts": [1], "ends": [data_rank], "axes": [0]})
+        out_shape = ctx.make_node("Concat", [num_rows, row_shape], attr={'axis': 0})
+        zeros_of_shape = ctx.make_node("ConstantOfShape", [out_shape.output[0]], attr={"value": zero_tensor})
 
         name = node.name
         outputs = node.output
-- 
2.43.0


From 6462bc1fb57de80bd5ec63cfc2098aa7a4ca0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 035/103] fix: freezing works when an earlier model had
 functions of the same names

---
 tf2onnx/tf_loader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index cca4a42..cd47715 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -381,6 +381,12 @@ def from_function(func, input_names, output_names, large_model=False):
             graph_def = fix_freezing_errors(bad_graph_def)
         else:
             raise e
+    except tf.errors.InvalidArgumentError as e:
+        if "duplicate function" not in str(e):
+            raise
+        # Freezing registers the functions it creates in the context. Their names can be those of a model that
+        # was frozen before.
+        graph_def = convert_variables_to_constants_large_model(func)
     else:
         graph_def = frozen_func.graph.as_graph_def(add_shapes=True)
     graph_def = fix_freezing_errors_part2(graph_def)
-- 
2.43.0


From 074c9e3ed6bb6f1d29bdc424117b76021b1988d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 036/103] fix: a branch or loop body may return one value
 several times

---
 tf2onnx/onnx_opset/controlflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5e9e6bd..afe71bb 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -792,8 +792,8 @@ def prefix_graph(g, scope):
         for old_output, new_output in zip(node.output, new_node.output):
             for i, oname in enumerate(g.outputs):
                 if old_output == oname:
+                    # a value can be returned more than once
                     g.outputs[i] = new_output
-                    break
             g.replace_all_inputs(old_output, new_output, ops=ops)
         to_remove.append(node)
     for node in to_remove:
-- 
2.43.0


From 549be59aff6fdd1d7dbb3b8ce31ee7964c1d47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 037/103] fix: the iteration number of a loop body is known to
 be a scalar

---
 tf2onnx/onnx_opset/controlflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index afe71bb..8556aea 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -572,6 +572,7 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
     func_inputs = [i for i in g.input_names[2:] if i not in body_input_to_state_var]
     func_inputs = [g.input_names[0], cond_node.output[0]] + func_inputs
     g.set_dtype(func_inputs[0], onnx_pb.TensorProto.INT64)
+    g.set_shape(func_inputs[0], [])
     g.inputs = [g.get_node_by_output(inp) for inp in func_inputs]
 
     # we should use outputs shape, not inputs, since there may be shape invariants
-- 
2.43.0


From dd9f16742c865219153a654521793e2294aa6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 038/103] fix: values returned twice by a branch or loop body
 get distinct names

---
 tf2onnx/onnx_opset/controlflow.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 8556aea..049b707 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -666,6 +666,8 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
                 curr_o = g.get_node_by_output(curr_o).input[0]
             g.copy_dtype(curr_o, o)
 
+    make_outputs_distinct(g)
+
     for node in g.ragged_variant_list_reads:
         # Requires opset 11
         gather = node.inputs[0]
@@ -710,6 +712,7 @@ def wire_if_branch(parent_g, g, inputs, output_shapes, output_dtypes, scope, par
         g.remove_node(node.name)
 
     prefix_graph(g, scope)
+    make_outputs_distinct(g)
 
     for shape, dtype, output_name in zip(output_shapes, output_dtypes, g.outputs):
         g.set_shape(output_name, shape)
@@ -801,6 +804,14 @@ def prefix_graph(g, scope):
         g.remove_node(node.name)
 
 
+def make_outputs_distinct(g):
+    """A value that is returned several times needs a name per output."""
+    for i, output_name in enumerate(g.outputs):
+        if output_name in g.outputs[:i]:
+            g.outputs[i] = g.make_node("Identity", [output_name], shapes=[g.get_shape(output_name)],
+                                       dtypes=[g.get_dtype(output_name)], skip_conversion=True).output[0]
+
+
 def dump_graph(g):
     print()
     print("--, graph=", g.graph_name)
-- 
2.43.0


From b41aaa07fc159f4149f174173af46a34ac6a1a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 039/103] fix: names in a loop body differ from those of the
 graphs around it

---
 tf2onnx/onnx_opset/controlflow.py | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 049b707..8d1cd2b 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -668,7 +668,13 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
 
     make_outputs_distinct(g)
 
-    for node in g.ragged_variant_list_reads:
+    # names in the body must differ from those in the graphs around it
+    ragged_reads = [node.output[0] for node in g.ragged_variant_list_reads]
+    new_names = prefix_graph(g, scope)
+    prefix_graph_inputs(g, scope)
+
+    for output in ragged_reads:
+        node = g.get_node_by_output(new_names[output])
         # Requires opset 11
         gather = node.inputs[0]
         inp = gather.inputs[0]
@@ -779,6 +785,7 @@ def parameter_binding(g, inputs, state_vars=None):
 def prefix_graph(g, scope):
     ops = g.get_nodes()[:]
     to_remove = []
+    new_names = {}
     for node in ops:
         output_shapes = node.output_shapes
         output_dtypes = node.output_dtypes
@@ -799,9 +806,38 @@ def prefix_graph(g, scope):
                     # a value can be returned more than once
                     g.outputs[i] = new_output
             g.replace_all_inputs(old_output, new_output, ops=ops)
+            new_names[old_output] = new_output
         to_remove.append(node)
     for node in to_remove:
         g.remove_node(node.name)
+    replace_captured_inputs(g, new_names)
+    return new_names
+
+
+def replace_captured_inputs(g, new_names):
+    """Rename the values of g in the subgraphs that capture them."""
+    for node in g.get_nodes():
+        for body in (node.get_body_graphs() or {}).values():
+            for body_node in body.get_nodes():
+                for i, name in enumerate(body_node.input):
+                    if name in new_names:
+                        body.replace_input(body_node, name, new_names[name], i)
+            body.outputs = [new_names.get(name, name) for name in body.outputs]
+            replace_captured_inputs(body, new_names)
+
+
+def prefix_graph_inputs(g, scope):
+    new_inputs = []
+    for node in g.inputs:
+        old_output = node.output[0]
+        new_node = g.make_node("Placeholder", [], name=utils.make_name(scope + "/" + node.name), output_count=1,
+                               shapes=node.output_shapes, dtypes=node.output_dtypes)
+        new_inputs.append(new_node)
+        g.replace_all_inputs(old_output, new_node.output[0])
+        g.outputs = [new_node.output[0] if o == old_output else o for o in g.outputs]
+    for node in g.inputs:
+        g.remove_node(node.name)
+    g.inputs = new_inputs
 
 
 def make_outputs_distinct(g):
-- 
2.43.0


From f178de44dab61cb722c433cfed4ce4ece6323f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 040/103] fix: a constant used as iteration limit and as loop
 variable keeps its type in the latter

---
 tf2onnx/onnx_opset/controlflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 8d1cd2b..fc51b9a 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -401,7 +401,8 @@ class While:
             if maximum_iterations != -1:
                 consumers = ctx.find_output_consumers(maximum_iterations_name)
                 external_consumers = [c for c in consumers if c != node and c.type != 'TensorListReserve']
-                if len(external_consumers) == 0:
+                # node may also use the value as a loop variable
+                if len(external_consumers) == 0 and list(node.input).count(maximum_iterations_name) == 1:
                     ctx.remove_node(node.inputs[1].name)
                 else:
                     maximum_iterations_name = utils.make_name(node.inputs[1].name)
-- 
2.43.0


From f293eb8f24621e2203f3de1db4c587566654a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 041/103] fix: functions of a model get the shapes their
 callers pass also when these are nested or specialised

---
 tf2onnx/tf_loader.py | 29 +++++++++++++++++++++++++----
 tf2onnx/tf_utils.py  | 24 ++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index cd47715..d22c27d 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -100,6 +100,7 @@ from tf2onnx.tf_utils import (
     get_tf_version,
     replace_placeholders_with_tables,
     tflist_to_onnx,
+    merge_function_shapes,
 )
 
 logger = logging.getLogger(__name__)
@@ -902,22 +903,42 @@ def resolve_functions(tf_graph):
             yield ordered
             data = {item: (dep - ordered) for item, dep in data.items() if item not in ordered}
 
+    def callers_first(fdefs):
+        pending = dict(fdefs)
+        while pending:
+            called = {a.func.name for fdef in pending.values() for n in fdef.node_def for a in n.attr.values()}
+            names = [k for k in pending if k not in called] or list(pending)
+            for k in names:
+                yield k, pending.pop(k)
+
+    def set_unknown_input_shapes(fdef, input_shapes):
+        # function_def_to_graph prefers the _output_shapes of an argument, also if they are unknown
+        result = type(fdef)()
+        result.CopyFrom(fdef)
+        for i, shape in enumerate(input_shapes):
+            if i in result.arg_attr and "_output_shapes" in result.arg_attr[i].attr:
+                value = result.arg_attr[i].attr["_output_shapes"]
+                for known in list(value.list.shape) or [value.shape]:
+                    if known.unknown_rank:
+                        known.CopyFrom(shape.as_proto())
+        return result
+
     _, _, _, _, _, functions = tflist_to_onnx(tf_graph, {})
     data = {}
-    for k, fdef in tf_graph._functions.items():  # pylint: disable=protected-access
+    # pylint: disable=protected-access
+    for k, fdef in callers_first({k: f.definition for k, f in tf_graph._functions.items()}):
         input_shapes = functions.get(k)
-        fdef = fdef.definition
         if input_shapes and len(fdef.signature.input_arg) < len(input_shapes):
             input_shapes = input_shapes[:len(fdef.signature.input_arg)]
         try:
-            func = function_def_to_graph(fdef, input_shapes=input_shapes)
+            func = function_def_to_graph(set_unknown_input_shapes(fdef, input_shapes or []), input_shapes=input_shapes)
         except:  # pylint: disable=bare-except
             # if there is a mismatch between caller and function use the functions shape
             logger.warning("shape mismatch between caller and function: %s", k)
             func = function_def_to_graph(fdef)
         _FUNCTIONS[k] = func
         _, _, _, _, _, tfunctions = tflist_to_onnx(func, {})
-        functions.update(tfunctions)
+        merge_function_shapes(functions, tfunctions)
         data[k] = set(tfunctions.keys())
 
     result = []
diff --git a/tf2onnx/tf_utils.py b/tf2onnx/tf_utils.py
index f51edab..2f3ddfa 100644
--- a/tf2onnx/tf_utils.py
+++ b/tf2onnx/tf_utils.py
@@ -155,6 +155,27 @@ def get_tf_tensor_shape(tensor):
     return shape
 
 
+def get_function_input_shapes(node):
+    """Returns the shapes a node with function attributes passes to these functions."""
+    if node.type in ["While", "StatelessWhile"]:
+        # the values of a loop variable may differ in shape, its result has what they have in common
+        return [out.get_shape() for out in node.outputs]
+    inputs = node.inputs
+    if node.type in ["If", "StatelessIf", "Case", "StatelessCase"]:
+        # the condition is not passed on
+        inputs = inputs[1:]
+    return [inp.get_shape() for inp in inputs]
+
+
+def merge_function_shapes(functions, new_functions):
+    """Adds input shapes of functions. A function called several times gets the shapes all calls agree on."""
+    for name, shapes in new_functions.items():
+        known = functions.get(name)
+        if known is not None and len(known) == len(shapes):
+            shapes = [a.most_specific_compatible_shape(b) for a, b in zip(known, shapes)]
+        functions[name] = shapes
+
+
 def map_tf_dtype(dtype):
     if dtype:
         dtype = TF_TO_ONNX_DTYPE[dtype]
@@ -489,10 +510,9 @@ def tflist_to_onnx(g, shape_override, const_node_values=None, ignore_default=Non
                 if value and not isinstance(value, list):
                     dtypes[node.name] = map_tf_dtype(value)
             elif a in TF_SUBGRAPH_ATTRS:
-                input_shapes = [inp.get_shape() for inp in node.inputs]
                 nattr = get_tf_node_attr(node, a)
                 attr[a] = nattr.name
-                functions[nattr.name] = input_shapes
+                merge_function_shapes(functions, {nattr.name: get_function_input_shapes(node)})
             elif isinstance(value, tensor_pb2.TensorProto):
                 if const_node_values and node.name in const_node_values:
                     value.tensor_content = const_node_values[node.name]
-- 
2.43.0


From 91b1d58ebf988a35914a6905b379da1c55f76118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 042/103] fix: loops in one graph may share their condition
 function

---
 tf2onnx/onnx_opset/controlflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index fc51b9a..deb7caf 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -518,7 +518,8 @@ class While:
         # In onnx 'cond' is a variable, not a function. We need to inject the subgraph into the main graph
         # before the loop and into the body.
         cond_binding = parameter_binding(cond_graph, tf_while_inputs)
-        cond_outputs = inline_subgraph(ctx, cond_graph, cond_name, cond_binding)
+        # loops can share one condition
+        cond_outputs = inline_subgraph(ctx, cond_graph, utils.make_name(cond_name), cond_binding)
         # onnx Loop op outputs only loop_vars so we need shift output dtypes/shapes and consumers
         output_shapes = output_shapes[2:]
         output_dtypes = output_dtypes[2:]
-- 
2.43.0


From 49a3c97e94b10de4bba1c65ac09d800f1a287d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 043/103] fix: TruncateDiv of floating point values rounds
 towards zero

---
 tf2onnx/onnx_opset/math.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index c96095b..cfae9a8 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -26,11 +26,28 @@ class BroadcastOp(common.BroadcastOp):
     pass
 
 
-@tf_op(["RealDiv", "TruncateDiv"], onnx_op="Div")
+@tf_op("RealDiv", onnx_op="Div")
 class RealDiv(common.BroadcastOp):
     pass
 
 
+@tf_op("TruncateDiv", onnx_op="Div")
+class TruncateDiv(common.BroadcastOp):
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        # Div truncates towards zero for ints only
+        if ctx.get_dtype(node.input[0]) in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16,
+                                            onnx_pb.TensorProto.DOUBLE]:
+            shapes, dtypes = node.output_shapes, node.output_dtypes
+            ctx.remove_node(node.name)
+            div = ctx.make_node("Div", node.input, shapes=shapes, dtypes=dtypes, op_name_scope=node.name)
+            sign = ctx.make_node("Sign", div.output, shapes=shapes, dtypes=dtypes, op_name_scope=node.name)
+            size = ctx.make_node("Abs", div.output, shapes=shapes, dtypes=dtypes, op_name_scope=node.name)
+            size = ctx.make_node("Floor", size.output, shapes=shapes, dtypes=dtypes, op_name_scope=node.name)
+            ctx.make_node("Mul", [sign.output[0], size.output[0]], name=node.name, outputs=node.output,
+                          shapes=shapes, dtypes=dtypes)
+
+
 @tf_op(["LeakyRelu", "Softplus", "Softsign"])
 class DirectOpSinceOpset1:
     @classmethod
-- 
2.43.0


From 6d78cb75b54a4dd8781f5045e03b52b3d12a5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 044/103] fix: resizing images of other types than float by
 interpolation

---
 tf2onnx/onnx_opset/nn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index c550cad..350e72f 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1394,6 +1394,9 @@ class Resize:
 
     @classmethod
     def version_11(cls, ctx, node, **kwargs):
+        if node.type != "ResizeNearestNeighbor" and ctx.get_dtype(node.input[0]) != onnx_pb.TensorProto.FLOAT:
+            # the other methods interpolate, their results are always float
+            ctx.insert_new_node_on_input(node, "Cast", node.input[0], input_index=0, to=onnx_pb.TensorProto.FLOAT)
         cubic_coeff_a = None
         exclude_outside = False
         if node.type == "ResizeBilinear":
-- 
2.43.0


From e054b209721e03cc10a0e7f8266580948d40ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 045/103] fix: CropAndResize of images of other types than
 float

---
 tf2onnx/onnx_opset/nn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 350e72f..73bc71b 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1290,6 +1290,9 @@ class CropAndResize:
         mode = "nearest" if node.get_attr("method") is not None and node.get_attr(
             "method").s == b"nearest" else "linear"
         extrapolation_value = float(node.get_attr("extrapolation_value", "0").f)
+        if ctx.get_dtype(node.input[0]) != TensorProto.FLOAT:
+            # the crops of images of any type are float
+            ctx.insert_new_node_on_input(node, "Cast", node.input[0], input_index=0, to=TensorProto.FLOAT)
         input_x = node.input[0]
         x_shape = ctx.make_node("Shape", [input_x]).output[0]
         num_channels = GraphBuilder(ctx).make_slice({"data": x_shape, "starts": [3], "ends": [4], "axes": [0]})
-- 
2.43.0


From 7272607a09f567c539f6b540cee1c59c53f2cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 046/103] fix: casts for winml targets keep index inputs,
 output types and casts of other types

---
 tf2onnx/tfonnx.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..7f8f034 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -162,7 +162,11 @@ def rewrite_incomplete_type_support(g, ops, impacted_ops):
     It is not helping performance but better than the model not working at all.
     """
     ignored_input_index = {
-        "Tile": [1],  # Tile's second input can only be int64
+        "ReduceSum": [1],  # axes, sizes and positions can only be integers
+        "Slice": [1, 2, 3, 4],
+        "Split": [1],
+        "Tile": [1],
+        "Unsqueeze": [1],
         "Where": [0],  # Where's first input is bool
     }
     new_ops = []
@@ -180,32 +184,36 @@ def rewrite_incomplete_type_support(g, ops, impacted_ops):
                 input_name = op.input[i]
                 dtype = g.get_dtype(input_name)
                 if dtype is None:
-                    logger.warning("adding Cast for op %s (type is %s)' input: %s, dtype should not be None",
+                    # without the type there is no way back
+                    logger.warning("not adding Cast for op %s (type is %s)' input: %s, dtype should not be None",
                                    op.name, op.type, input_name)
+                    continue
 
                 if dtype != onnx_pb.TensorProto.FLOAT:
                     output_dtype = dtype
                     logger.debug("insert cast for node %s on input %s", op.name, input_name)
-                    if input_node and input_node.type == "Cast" \
-                            and len(g.find_output_consumers(input_node.output[0])) == 1:
-                        input_node.set_attr("to", onnx_pb.TensorProto.FLOAT)
-                        g.set_dtype(input_name, onnx_pb.TensorProto.FLOAT)
-                    else:
-                        cast_node = g.insert_new_node_on_input(op, "Cast", input_name,
-                                                               to=onnx_pb.TensorProto.FLOAT)
-                        g.set_dtype(cast_node.output[0], onnx_pb.TensorProto.FLOAT)
-                        g.copy_shape(input_name, cast_node.output[0])
-                        cast_inserted.append(cast_node)
+                    cast_node = g.insert_new_node_on_input(op, "Cast", input_name, input_index=i,
+                                                           to=onnx_pb.TensorProto.FLOAT)
+                    g.set_dtype(cast_node.output[0], onnx_pb.TensorProto.FLOAT)
+                    g.copy_shape(input_name, cast_node.output[0])
+                    cast_inserted.append(cast_node)
             if output_dtype:
                 # insert reverse cast if needed
                 for output_name in op.output:
+                    result_dtype = g.get_dtype(output_name) or output_dtype
+                    if result_dtype in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.BOOL] and op.type == "IsNaN":
+                        continue
                     name = utils.make_name(op.name)
                     logger.debug("insert cast back for node %s on output %s [dtype=%s]", op.name, output_name,
-                                 output_dtype)
+                                 result_dtype)
                     output_cast = g.insert_new_node_on_output("Cast", output_name, name=name,
-                                                              to=output_dtype)
-                    g.set_dtype(output_cast.output[0], output_dtype)
+                                                              to=result_dtype)
+                    g.set_dtype(output_cast.output[0], result_dtype)
                     g.copy_shape(output_name, output_cast.output[0])
+                    g.set_dtype(output_name, onnx_pb.TensorProto.FLOAT)
+                    if output_name in g.outputs:
+                        # only in a body graph, the outputs of the main graph are Identity nodes
+                        g.outputs = [output_cast.output[0] if o == output_name else o for o in g.outputs]
                     cast_inserted.append(output_cast)
 
             if cast_inserted:
-- 
2.43.0


From 689e81499a02379d3f95f1a520f50d7a40186116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 047/103] fix: models import the domains of the operators the
 conversion itself adds

---
 tf2onnx/graph.py             |  4 ++++
 tf2onnx/onnx_opset/tensor.py |  6 +++---
 tf2onnx/utils.py             | 11 +++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..1c3887a 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1200,6 +1200,10 @@ class Graph(object):
             opsets.append(constants.AI_ONNX_ML_OPSET)
             if self.extra_opset is not None:
                 opsets.extend(self.extra_opset)
+            # other domains which the conversion itself uses, they have a single version
+            imported = {opset.domain for opset in opsets}
+            used = utils.get_domains(graph) & {constants.MICROSOFT_DOMAIN, constants.CONTRIB_OPS_DOMAIN}
+            opsets.extend(helper.make_opsetid(domain, 1) for domain in sorted(used - imported))
             kwargs["opset_imports"] = opsets
         model_proto = helper.make_model(graph, **kwargs)
 
diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 154f2cd..6f153d0 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3309,7 +3309,7 @@ class MatrixDiagPartV2V3:
         shape_input_shape = ctx.make_node('Shape', [input_shape.output[0]])
         matrix_shape = ctx.make_node('Slice',
                                      [input_shape.output[0], minus_two, shape_input_shape.output[0]])
-        min_dim = ctx.make_node('ReduceMin', [matrix_shape.output[0]])
+        min_dim = ctx.make_node('ReduceMin', [matrix_shape.output[0]], shapes=[[1]], dtypes=[TensorProto.INT64])
         input_depth = ctx.make_node('Slice', [matrix_shape.output[0], minus_two, minus_one])
         input_width = ctx.make_node('Slice', [matrix_shape.output[0], minus_one, two])
         temp_shape = ctx.make_node('Concat', [minus_one, matrix_shape.output[0]], attr={'axis': 0})
@@ -3436,11 +3436,11 @@ class MatrixDiagPartV2V3:
         left_pads = ctx.make_node('Slice', [main_loop.output[1], minus_two, minus_one,
                                             minus_one])
         flattened_left_pads = ctx.make_node('Reshape', [left_pads.output[0], minus_one])
-        min_left_pads = ctx.make_node('ReduceMin', [flattened_left_pads.output[0]])
+        min_left_pads = ctx.make_node('ReduceMin', [flattened_left_pads.output[0]], shapes=[[1]], dtypes=[TensorProto.INT64])
         right_pads = ctx.make_node('Slice', [main_loop.output[1], minus_one, two,
                                              minus_one])
         flattened_right_pads = ctx.make_node('Reshape', [right_pads.output[0], minus_one])
-        min_right_pads = ctx.make_node('ReduceMin', [flattened_right_pads.output[0]])
+        min_right_pads = ctx.make_node('ReduceMin', [flattened_right_pads.output[0]], shapes=[[1]], dtypes=[TensorProto.INT64])
         # trim left pads
         identity_left_sliced_graph = ctx.create_new_graph_with_same_config()
         identity_left_sliced_graph.parent_graph = ctx
diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index d23ce2a..58d826e 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -652,3 +652,14 @@ def is_tf_slice_op(op):
 
 def is_tf_const_op(op):
     return op.type in ["Const", "ConstV2"]
+
+
+def get_domains(graph_proto):
+    """Returns the domains of the operators in an onnx graph and its subgraphs."""
+    domains = set()
+    for node in graph_proto.node:
+        domains.add(node.domain)
+        for attr in node.attribute:
+            for subgraph in [attr.g] if attr.HasField("g") else attr.graphs:
+                domains |= get_domains(subgraph)
+    return domains
-- 
2.43.0


From 6fe9ac66d05202a326be2c9ed91f2d343a37561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 048/103] fix: DivNoNan below opset 11 does not compare floats
 with Equal

---
 tf2onnx/onnx_opset/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index cfae9a8..13bf879 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -354,7 +354,12 @@ class DivNoNan:
         node.type = "Div"
         np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[1]))
         zero_const = ctx.make_const(utils.make_name("const_zero"), np.array(0, np_dtype)).output[0]
-        is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
+        if ctx.opset >= 11:
+            is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
+        else:
+            # Equal does not support floats before opset 11
+            is_nonzero = ctx.make_node("Cast", [node.input[1]], attr={"to": onnx_pb.TensorProto.BOOL}).output[0]
+            is_zero = ctx.make_node("Not", [is_nonzero]).output[0]
         where_node = ctx.make_node("Where", [is_zero, zero_const, node.output[0]])
         ctx.insert_node_on_output(where_node, node.output[0])
 
-- 
2.43.0


From 42dfec95c194b29fe24d03d6fb219e09684ab8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 049/103] fix: FloorDiv and FloorMod of negative ints below
 opset 10

---
 tf2onnx/onnx_opset/math.py | 40 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 13bf879..506ec55 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -534,6 +534,25 @@ class Erf:
         pass
 
 
+def _signed_floor_div_parts(ctx, node):
+    """For the signed ints of a FloorDiv or FloorMod node below opset 10, which has no Mod: returns the quotient and the
+    remainder of the division that rounds towards zero, and whether the quotient is 1 above its floor (as int)."""
+    x, y = node.input
+    dtype = ctx.get_dtype(x)
+    zero = ctx.make_const(utils.make_name("zero"), np.array(0, dtype=utils.map_onnx_to_numpy_type(dtype))).output[0]
+    div = ctx.make_node("Div", [x, y], op_name_scope=node.name).output[0]
+    mul = ctx.make_node("Mul", [div, y], op_name_scope=node.name).output[0]
+    rem = ctx.make_node("Sub", [x, mul], op_name_scope=node.name).output[0]
+    exact = ctx.make_node("Equal", [rem, zero], op_name_scope=node.name).output[0]
+    rem_neg = ctx.make_node("Less", [rem, zero], op_name_scope=node.name).output[0]
+    y_neg = ctx.make_node("Less", [y, zero], op_name_scope=node.name).output[0]
+    signs_differ = ctx.make_node("Xor", [rem_neg, y_neg], op_name_scope=node.name).output[0]
+    inexact = ctx.make_node("Not", [exact], op_name_scope=node.name).output[0]
+    above = ctx.make_node("And", [inexact, signs_differ], op_name_scope=node.name).output[0]
+    above = ctx.make_node("Cast", [above], attr={"to": dtype}, op_name_scope=node.name).output[0]
+    return div, rem, above
+
+
 @tf_op("FloorDiv")
 class FloorDiv:
     @classmethod
@@ -548,6 +567,16 @@ class FloorDiv:
             ctx.copy_dtype(node.output[0], floor_res.output[0])
             ctx.copy_shape(node.output[0], floor_res.output[0])
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]:
+            # Div truncates towards zero for ints
+            div, _, above = _signed_floor_div_parts(ctx, node)
+            node.type = "Sub"
+            ctx.replace_inputs(node, [div, above])
+        else:
+            cls.version_6(ctx, node, **kwargs)
+
     @classmethod
     def version_10(cls, ctx, node, **kwargs):
         dtype = ctx.get_dtype(node.input[0])
@@ -578,6 +607,17 @@ class FloorMod:
         ctx.make_node(op_type="Sub", inputs=[node.input[0], mul.output[0]],
                       name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]:
+            # Div truncates towards zero for ints
+            _, rem, above = _signed_floor_div_parts(ctx, node)
+            correction = ctx.make_node("Mul", [above, node.input[1]], op_name_scope=node.name).output[0]
+            node.type = "Add"
+            ctx.replace_inputs(node, [rem, correction])
+        else:
+            cls.version_7(ctx, node, **kwargs)
+
     @classmethod
     def version_10(cls, ctx, node, **kwargs):
         dtype = ctx.get_dtype(node.input[0])
-- 
2.43.0


From ba9624599b1aa7659a839ecd0a1e0e1dd38a36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 050/103] fix: Equal and NotEqual of floats below opset 11 do
 not compare truncated values

---
 tf2onnx/onnx_opset/logical.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index a8824e9..06c3809 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -96,6 +96,21 @@ class Equal:
             ctx.copy_shape(output_name, not_node.output[0])
             ctx.copy_dtype(output_name, not_node.output[0])
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        float_dtypes = [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]
+        if ctx.get_dtype(node.input[0]) not in float_dtypes or node.input[0] == node.input[1]:
+            cls.version_7(ctx, node, **kwargs)
+            return
+        # Equal does not support floats before opset 11, Less and Greater do. NaNs are not equal to anything.
+        x, y = node.input
+        unequal = ctx.make_node("Less", [x, y], op_name_scope=node.name).output[0]
+        for op_type, inputs in [("Greater", [x, y]), ("IsNaN", [x]), ("IsNaN", [y])]:
+            other = ctx.make_node(op_type, inputs, op_name_scope=node.name).output[0]
+            unequal = ctx.make_node("Or", [unequal, other], op_name_scope=node.name).output[0]
+        node.type = "Identity" if node.type == "NotEqual" else "Not"
+        ctx.replace_inputs(node, [unequal])
+
     @classmethod
     def version_11(cls, ctx, node, **kwargs):
         # starting with opset-11, equal supports all numerical types (but both operands must be of the same type)
-- 
2.43.0


From 29c0419e2d20a0d8489e3a2b41edf5974fff1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 051/103] fix: the constant value of Pad below opset 11 is a
 float attribute

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 73bc71b..79bf709 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -905,7 +905,7 @@ class Pad:
 
         if mode in [None, "constant"] and len(node.input) == 3:
             const_val = node.inputs[2].get_tensor_value()
-            node.set_attr("value", const_val)
+            node.set_attr("value", float(const_val))
             ctx.remove_input(node, node.input[2], 2)
 
         ctx.remove_input(node, node.input[1], 1)
-- 
2.43.0


From 29172ab880c9b1fe08ebe382e51f40e325af5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 052/103] fix: FFT needs opset 11 for CumSum and says so

---
 tf2onnx/onnx_opset/signal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index 826cb50..075475f 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -461,6 +461,7 @@ class CommonFFT2DOp(CommonFFTOp):
             code = export2tf2onnx(onx, name="FFT2D")
             print(code)
         """
+        utils.make_sure(opset >= 11, "Opset 11 is required for RFFT2D (CumSum).")
         consumers = ctx.find_output_consumers(node.output[0])
         consumer_types = set(op.type for op in consumers)
         utils.make_sure(
-- 
2.43.0


From 591b3898bc2de52cec3b9e68cb39b518beef27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 053/103] fix: scalars for target rs4 keep shared constants and
 broadcasting intact

---
 tf2onnx/onnx_opset/common.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/tf2onnx/onnx_opset/common.py b/tf2onnx/onnx_opset/common.py
index 270bf5c..5ebb5bb 100644
--- a/tf2onnx/onnx_opset/common.py
+++ b/tf2onnx/onnx_opset/common.py
@@ -7,13 +7,23 @@ common
 
 import logging
 
-from tf2onnx import constants
+from tf2onnx import constants, utils
 
 logger = logging.getLogger(__name__)
 
 # pylint: disable=unused-argument,missing-docstring
 
 class BroadcastOp:
+    @classmethod
+    def _scalar_to_dim1(cls, ctx, node, input_index):
+        """Gives a constant scalar input one dimension. The constant is copied, other nodes may need the scalar."""
+        if not node.inputs[input_index].is_const():
+            return []
+        value = node.inputs[input_index].get_tensor_value(as_list=False).reshape([1])
+        const = ctx.make_const(utils.make_name(node.inputs[input_index].name), value)
+        ctx.replace_input(node, node.input[input_index], const.output[0], input_index)
+        return [1]
+
     @classmethod
     def version_1(cls, ctx, node, **kwargs):
         """Elementwise Ops with broadcast flag."""
@@ -27,12 +37,10 @@ class BroadcastOp:
             # of caffe2 and winml/rs4.
             if ctx.is_target(constants.TARGET_RS4):
                 # in rs4 mul and add do not support scalar correctly
-                if not shape0:
-                    if node.inputs[0].is_const():
-                        shape0 = node.inputs[0].scalar_to_dim1()
-                if not shape1:
-                    if node.inputs[1].is_const():
-                        shape1 = node.inputs[1].scalar_to_dim1()
+                if shape0 == [] and shape1:
+                    shape0 = cls._scalar_to_dim1(ctx, node, 0)
+                elif shape1 == [] and shape0:
+                    shape1 = cls._scalar_to_dim1(ctx, node, 1)
             if shape0 and shape1 and len(shape0) < len(shape1) and node.type in ["Mul", "Add"]:
                 tmp = node.input[0]
                 ctx.replace_input(node, node.input[0], node.input[1], 0)
@@ -52,12 +60,10 @@ class BroadcastOp:
             # of caffe2 and winml/rs4.
             if ctx.is_target(constants.TARGET_RS4):
                 # in rs4 mul and add do not support scalar correctly
-                if not shape0:
-                    if node.inputs[0].is_const():
-                        shape0 = node.inputs[0].scalar_to_dim1()
-                if not shape1:
-                    if node.inputs[1].is_const():
-                        shape1 = node.inputs[1].scalar_to_dim1()
+                if shape0 == [] and shape1:
+                    shape0 = cls._scalar_to_dim1(ctx, node, 0)
+                elif shape1 == [] and shape0:
+                    shape1 = cls._scalar_to_dim1(ctx, node, 1)
             if shape0 and shape1 and len(shape0) < len(shape1) and node.type in ["Mul", "Add"]:
                 tmp = node.input[0]
                 ctx.replace_input(node, node.input[0], node.input[1], 0)
-- 
2.43.0


From 950f836c8a87c8155ade07e18654dc56d3112892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:36 +0000
Subject: [PATCH 054/103] fix: casts for winml targets do not mix types when
 one input has an unknown type

---
 tf2onnx/tfonnx.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 7f8f034..2d3018a 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -176,6 +176,13 @@ def rewrite_incomplete_type_support(g, ops, impacted_ops):
             cast_inserted = []
             output_dtype = None
             ignored_inputs = ignored_input_index.get(op.type)
+            unknown = [name for i, name in enumerate(op.input)
+                       if not (ignored_inputs and i in ignored_inputs) and g.get_dtype(name) is None]
+            if unknown:
+                # without the type there is no way back
+                logger.warning("not adding Cast for op %s (type is %s)' inputs: %s, dtype should not be None",
+                               op.name, op.type, unknown)
+                continue
             # insert casts on inputs if the runtime only supports float
             for i, input_node in enumerate(op.inputs):
                 if ignored_inputs and i in ignored_inputs:
@@ -183,11 +190,6 @@ def rewrite_incomplete_type_support(g, ops, impacted_ops):
 
                 input_name = op.input[i]
                 dtype = g.get_dtype(input_name)
-                if dtype is None:
-                    # without the type there is no way back
-                    logger.warning("not adding Cast for op %s (type is %s)' input: %s, dtype should not be None",
-                                   op.name, op.type, input_name)
-                    continue
 
                 if dtype != onnx_pb.TensorProto.FLOAT:
                     output_dtype = dtype
-- 
2.43.0


From dcaa10e4d62868f0314862049b1a059c4b97eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:36 +0000
Subject: [PATCH 055/103] fix: one_hot of negative indices and of indices out
 of range is off

---
 tf2onnx/onnx_opset/tensor.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 6f153d0..e85c122 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1425,6 +1425,18 @@ class OneHot:
             eye[eye == 0] = off
             eye[eye == 1] = on
 
+        if ctx.opset >= 9:
+            # indices out of range give a row which is off
+            eye = np.concatenate([eye, np.full([1, depth], off, dtype=on_val.dtype)])
+            indices_dtype = ctx.get_dtype(indices_name)
+            if indices_dtype != onnx_pb.TensorProto.INT64:
+                indices_name = ctx.make_node("Cast", [indices_name], attr={"to": onnx_pb.TensorProto.INT64}).output[0]
+            zero, past_end = [n.output[0] for n in ctx.make_consts([0, depth])]
+            negative = ctx.make_node("Less", [indices_name, zero]).output[0]
+            inside = ctx.make_node("Less", [indices_name, past_end]).output[0]
+            not_negative = ctx.make_node("Not", [negative]).output[0]
+            valid = ctx.make_node("And", [not_negative, inside]).output[0]
+            indices_name = ctx.make_node("Where", [valid, indices_name, past_end]).output[0]
         const_name = utils.make_name(node.name)
         ctx.make_const(const_name, eye)
         # setup gather inputs
@@ -1475,6 +1487,19 @@ class OneHot:
             if node.get_attr('axis').i == 0:
                 node.set_attr('axis', -1)
 
+        # negative indices are out of range in tf but count from the end in onnx
+        indices_dtype = ctx.get_dtype(indices)
+        if indices_dtype in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64] \
+                and not (node.inputs[0].is_const() and np.all(node.inputs[0].get_tensor_value(as_list=False) >= 0)):
+            zero = ctx.make_const(utils.make_name("zero"),
+                                  np.array(0, utils.map_onnx_to_numpy_type(indices_dtype))).output[0]
+            past_end = depth
+            if ctx.get_dtype(depth) != indices_dtype:
+                past_end = ctx.make_node("Cast", [depth], attr={"to": indices_dtype}).output[0]
+            negative = ctx.make_node("Less", [indices, zero]).output[0]
+            indices = ctx.make_node("Where", [negative, past_end, indices],
+                                    shapes=[ctx.get_shape(indices)], dtypes=[indices_dtype]).output[0]
+
         if ctx.is_target(constants.TARGET_RS6) \
                 and ctx.get_dtype(indices) != onnx_pb.TensorProto.INT64:
             indices = ctx.make_node("Cast", [indices], attr={"to": onnx_pb.TensorProto.INT64}).output[0]
-- 
2.43.0


From ebc5b3356d9a2d6351b27c0284e7bc061f59da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 056/103] fix: the indices of MaxPoolWithArgmax are int64 also
 for the types of the nodes made from them

---
 tf2onnx/onnx_opset/nn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 79bf709..63e3749 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -753,6 +753,9 @@ class MaxPoolWithArgmaxOp:
         hw = ctx.make_node("Mul", [h, w]).output[0]
         chw = ctx.make_node("Mul", [hw, c]).output[0]
         consumers = ctx.find_output_consumers(node.output[1])
+        # the indices of onnx are always int64
+        argmax_dtype = ctx.get_dtype(node.output[1])
+        ctx.set_dtype(node.output[1], TensorProto.INT64)
         if ctx.opset >= 10:
             xy = ctx.make_node("Mod", [node.output[1], hw]).output[0]
         else:
@@ -781,10 +784,8 @@ class MaxPoolWithArgmaxOp:
             result = ctx.make_node("Add", [xyc, n_range_scale]).output[0]
         else:
             result = xyc
-        argmax_dtype = ctx.get_dtype(node.output[1])
         if argmax_dtype is not None and argmax_dtype != TensorProto.INT64:
             result = ctx.make_node("Cast", [result], attr={'to': argmax_dtype}).output[0]
-            ctx.set_dtype(node.output[1], TensorProto.INT64)
         ctx.replace_all_inputs(node.output[1], result, ops=consumers)
 
         add_padding(ctx, node, kernel_shape, strides)
-- 
2.43.0


From ce17a187705adca3bd8d2e350ea327774821d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 057/103] fix: concat keeps constants without elements which
 have a size in the axis

---
 tf2onnx/onnx_opset/tensor.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index e85c122..11f5614 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -281,19 +281,22 @@ class ConcatV2:
         # if any input is empty, remove the input and concat the others
         # NOTE: workaround for https://github.com/Microsoft/onnxruntime/issues/681
         node.type = "Concat"
+        axis_node = node.inputs[-1]
+        utils.make_sure(axis_node.is_const(), "{} needs to be const".format(axis_node.name))
+        axis_val = axis_node.get_tensor_value()
         removed_indices = []
-        for i, inp in enumerate(node.inputs):
+        for i, inp in enumerate(node.inputs[:-1]):
+            # an input without elements counts if its size in the axis is not 0
             if inp.is_const() and inp.get_tensor_value(as_list=False).size == 0:
-                removed_indices.append(i)
+                shape = inp.get_tensor_value(as_list=False).shape
+                if not -len(shape) <= axis_val < len(shape) or shape[axis_val] == 0:
+                    removed_indices.append(i)
+        if len(removed_indices) == len(node.input) - 1:
+            # all inputs are empty and so is the result
+            removed_indices = removed_indices[1:]
         for i in reversed(removed_indices):
             ctx.remove_input(node, node.input[i], i)
-        # all inputs are deleted
-        if not node.input:
-            raise RuntimeError("all inputs of {} are empty".format(node.name))
 
-        axis_node = node.inputs[-1]
-        utils.make_sure(axis_node.is_const(), "{} needs to be const".format(axis_node.name))
-        axis_val = axis_node.get_tensor_value()
         ctx.remove_input(node, node.input[-1], len(node.input) - 1)
 
         if axis_val < 0:  # onnxruntime does not support -1 axis, but TF supports.
-- 
2.43.0


From f77aeed1bb5cc5b67ea3d0b0107a82223bad820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:31 +0000
Subject: [PATCH 058/103] fix: Log of float16 is not taken for a type to be
 cast

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 506ec55..779c578 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -68,12 +68,12 @@ class DirectOp:
             # ORT doesn't implement Log on doubles
             double_to_float = {onnx_pb.TensorProto.DOUBLE: onnx_pb.TensorProto.FLOAT}
             dtypes = node.output_dtypes
-            if node.maybe_cast_input([[onnx_pb.TensorProto.FLOAT]], double_to_float):
+            if node.maybe_cast_input([[onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16]], double_to_float):
                 cast_back_node = ctx.insert_new_node_on_output(
                     "Cast", node.output[0], name=utils.make_name(node.name + "_castback"),
                     to=dtypes[0])
                 ctx.set_dtype(cast_back_node.output[0], dtypes[0])
-                ctx.copy_shape(node.name, cast_back_node.output[0])
+                ctx.copy_shape(node.output[0], cast_back_node.output[0])
                 ctx.copy_dtype(node.input[0], node.output[0])
 
 @tf_op(["Acos", "Asin", "Atan", "Cos", "Sin", "Tan"])
-- 
2.43.0


From c3841dfa174b39e47d8db20298ae0f40ca664f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 059/103] fix: folding ListDiff keeps the order, repeated
 values and type of its input

---
 tf2onnx/tfonnx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 2d3018a..e81b37e 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -77,7 +77,7 @@ def rewrite_constant_fold(g, ops):
         "Cast": np.asarray,
         "ConcatV2": np.concatenate,
         "Less": np.less,
-        "ListDiff": np.setdiff1d,
+        "ListDiff": np.isin,
         "Mul": np.multiply,
         "Pack": np.stack,
         "Range": np.arange,
@@ -94,6 +94,8 @@ def rewrite_constant_fold(g, ops):
             func = func_map.get(op.type)
             if func is None: continue
             if set(op.output) & set(g.outputs): continue
+            # only the first output is computed
+            if any(g.find_output_consumers(out) for out in op.output[1:]): continue
             try:
                 inputs = []
                 for node in op.inputs:
@@ -113,10 +115,8 @@ def rewrite_constant_fold(g, ops):
                         values = inputs[:-1]
                         val = func(tuple(values), axis)
                     elif op.type == "ListDiff":
-                        out_type = op.get_attr_int("out_idx")
-                        np_type = tf2onnx.utils.map_onnx_to_numpy_type(out_type)
-                        val = func(*inputs)
-                        val = val.astype(np_type)
+                        # keeps the order, repeated values and type of x
+                        val = inputs[0][func(*inputs, invert=True)]
                     elif op.type in ["Pack"]:
                         # handle ops that need input array and axis
                         axis = op.get_attr_int("axis")
-- 
2.43.0


From 3bba85eb7d0027fb752a4c9f987241e98a0bc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:20 +0000
Subject: [PATCH 060/103] fix: shape inference does not take broadcast inputs
 of SelectV2 and Pow for tensors of one shape

---
 tf2onnx/shape_inference.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/tf2onnx/shape_inference.py b/tf2onnx/shape_inference.py
index baf7873..c7dc75a 100644
--- a/tf2onnx/shape_inference.py
+++ b/tf2onnx/shape_inference.py
@@ -274,6 +274,7 @@ broadcast_ops = [
     "LogicalAnd",
     "LogicalOr",
     "Mul",
+    "Pow",
     "RealDiv",
     "Sub"
 ]
@@ -423,12 +424,13 @@ def infer_shape_for_op_legacy(op):
 
 
 def infer_input_shapes(op):
-    if op.type in ["Select", "SelectV2"]:
+    # (the inputs of SelectV2 are broadcast, those of Select have one shape)
+    if op.type == "Select":
         shape_t = get_tf_tensor_shape(op.inputs[1])
         shape_e = get_tf_tensor_shape(op.inputs[2])
         # copy shape if t OR e does not have a shape, no update if t AND e both have shapes
         if shape_t is None or shape_e is None:
-            new_shape = shape_t or shape_e
+            new_shape = shape_e if shape_t is None else shape_t
             if new_shape is not None:
                 op.inputs[1].set_shape(new_shape)
                 op.inputs[2].set_shape(new_shape)
@@ -468,7 +470,7 @@ def infer_output_shapes_with_partial_inputs(op):
         logger.debug("set Concat op [%s] with new shape %s", op.outputs[0].name, new_shape)
         return True
 
-    if op.type in ["Select", "SelectV2"]:
+    if op.type == "Select":
         new_shape = get_tf_tensor_shape(op.inputs[1])
         if new_shape is None:
             new_shape = get_tf_tensor_shape(op.inputs[2])
@@ -491,9 +493,9 @@ def infer_output_shapes_with_partial_inputs(op):
         if input_shape is None:
             return False
         if axis < 0:
-            axis += len(input_shape)
+            axis += len(input_shape) + 1
         for i in op.inputs:
-            if not get_tf_tensor_shape(i):
+            if get_tf_tensor_shape(i) is None:
                 i.set_shape(input_shape)
                 logger.debug("set [%s] with new shape %s", i.name, input_shape)
         new_shape = input_shape[:axis] + [len(op.inputs)] + input_shape[axis:]
@@ -501,17 +503,6 @@ def infer_output_shapes_with_partial_inputs(op):
         logger.debug("set Pack op [%s] with new shape %s", op.outputs[0].name, new_shape)
         return True
 
-    if op.type == "Pow":
-        # https://www.tensorflow.org/api_docs/cc/class/tensorflow/ops/pow
-        new_shape = get_tf_tensor_shape(op.inputs[0])
-        if new_shape is None:
-            new_shape = get_tf_tensor_shape(op.inputs[1])
-        if new_shape is not None:
-            op.outputs[0].set_shape(new_shape)
-            logger.debug("set [%s] with new shape %s", op.outputs[0].name, new_shape)
-            return True
-        return False
-
     return None
 
 
-- 
2.43.0


From 88312f1b26346f7e59a7a29361a585f7910cf53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:20 +0000
Subject: [PATCH 061/103] fix: the slice before a squeeze of StridedSlice has
 the shape before the squeeze

---
 tf2onnx/onnx_opset/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 11f5614..e58e516 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1221,6 +1221,11 @@ class StridedSlice:
             input_dtype = ctx.get_dtype(node.output[0])
             ctx.set_dtype(squeeze_node.output[0], input_dtype)
             ctx.copy_shape(node.output[0], squeeze_node.output[0])
+            if out_shapes[0] is not None:
+                slice_shape = list(out_shapes[0])
+                for axis in sorted(needs_squeeze):
+                    slice_shape.insert(axis, 1)
+                ctx.set_shape(node.output[0], slice_shape)
 
     @classmethod
     def version_10(cls, ctx, node, **kwargs):
-- 
2.43.0


From 6442066ffddcd7fb44b0ac5459be15c0d6babae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:20 +0000
Subject: [PATCH 062/103] fix: TopK of ints and doubles does not go through
 float32

---
 tf2onnx/onnx_opset/tensor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index e58e516..6621402 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1295,10 +1295,17 @@ class TopKV2:
         k_1d = GraphBuilder(ctx).make_unsqueeze({'data': cast.output[0], "axes": [0]}, return_node=True)
         ctx.replace_input(node, k_0d, k_1d.output[0], 1)
         # cast X if needed
-        if dtypes[0] != onnx_pb.TensorProto.FLOAT:
+        supported = [onnx_pb.TensorProto.FLOAT]
+        if opset >= 11:
+            # float does not hold all ints
+            supported += [onnx_pb.TensorProto.DOUBLE, onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]
+        if dtypes[0] not in supported:
             # opset-10 supports types other than float but onnxruntime does not
             ctx.insert_new_node_on_input(node, "Cast", node.input[0], input_index=0, to=onnx_pb.TensorProto.FLOAT)
-            ctx.insert_new_node_on_output("Cast", node.output[0], to=dtypes[0])
+            cast_back = ctx.insert_new_node_on_output("Cast", node.output[0], to=dtypes[0])
+            ctx.set_dtype(cast_back.output[0], dtypes[0])
+            ctx.copy_shape(node.output[0], cast_back.output[0])
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
         # cast the index output to int32
         cast_out = ctx.insert_new_node_on_output("Cast", node.output[1], name=utils.make_name(node.name), to=dtypes[1])
         ctx.set_dtype(cast_out.output[0], dtypes[1])
-- 
2.43.0


From 7c72dc7fefcaffbc767444ce3cdf981571b4505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:13 +0000
Subject: [PATCH 063/103] fix: tensor lists a loop only reads are declared with
 their shape in its body

---
 tf2onnx/onnx_opset/controlflow.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index deb7caf..fbf2924 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -549,7 +549,14 @@ class While:
         # FIXME: I don't think this is needed anymore
         for i, n in enumerate(body.inputs):
             if body.get_dtype(n.output[0]) == onnx_pb.TensorProto.UNDEFINED:
-                body.set_dtype(n.output[0], ctx.get_dtype(loop_node.input[i]))
+                dtype, shape = ctx.get_dtype(loop_node.input[i]), ctx.get_shape(loop_node.input[i])
+                bound = [(body, n.output[0])]
+                if i >= 2:
+                    # tensor lists which are loop variables are only read
+                    bound += [(body, body.outputs[i - 1]), (ctx, loop_node.output[i - 2])]
+                for g, name in bound:
+                    g.set_dtype(name, dtype)
+                    g.set_shape(name, shape)
 
 
 def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_to_state_var, output_shapes,
-- 
2.43.0


From 54d7d3b31006f6e52b643ae2917193d462163daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 064/103] fix: the tensors around casts of Pad and other
 operators keep their shapes and have their types

---
 tf2onnx/onnx_opset/math.py |  2 +-
 tf2onnx/onnx_opset/nn.py   | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 779c578..3d6f71d 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -923,7 +923,7 @@ class BitShift:
                 "Cast", node.output[0], name=utils.make_name(node.name) + "_castback",
                 to=dtypes[0])
             ctx.set_dtype(cast_back_node.output[0], dtypes[0])
-            ctx.copy_shape(node.name, cast_back_node.output[0])
+            ctx.copy_shape(node.output[0], cast_back_node.output[0])
             ctx.copy_dtype(node.input[0], node.output[0])
 
 
diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 63e3749..990290c 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -917,13 +917,14 @@ class Pad:
                                 onnx_pb.TensorProto.DOUBLE]:
             cast_node = ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=onnx_pb.TensorProto.FLOAT)
             ctx.set_dtype(cast_node.output[0], onnx_pb.TensorProto.FLOAT)
-            ctx.copy_shape(node.name, cast_node.output[0])
+            ctx.copy_shape(cast_node.input[0], cast_node.output[0])
 
             cast_back_node = ctx.insert_new_node_on_output("Cast", node.output[0],
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=origin_dtype)
             ctx.set_dtype(cast_back_node.output[0], origin_dtype)
-            ctx.copy_shape(node.name, cast_back_node.output[0])
+            ctx.copy_shape(node.output[0], cast_back_node.output[0])
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
 
         if mode == "symmetric":
             cls.convert_symmetric_pads(ctx, node)
@@ -954,13 +955,14 @@ class Pad:
                                 TensorProto.INT32, TensorProto.INT64]:
             cast_node = ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=TensorProto.FLOAT)
             ctx.set_dtype(cast_node.output[0], TensorProto.FLOAT)
-            ctx.copy_shape(node.name, cast_node.output[0])
+            ctx.copy_shape(cast_node.input[0], cast_node.output[0])
 
             cast_back_node = ctx.insert_new_node_on_output("Cast", node.output[0],
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=origin_dtype)
             ctx.set_dtype(cast_back_node.output[0], origin_dtype)
-            ctx.copy_shape(node.name, cast_back_node.output[0])
+            ctx.copy_shape(node.output[0], cast_back_node.output[0])
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
 
         if mode == "symmetric":
             cls.convert_symmetric_pads(ctx, node)
@@ -1000,7 +1002,7 @@ class BatchNorm:
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=x_dtype)
             ctx.set_dtype(cast_back_node.output[0], x_dtype)
-            ctx.copy_shape(node.name, cast_back_node.output[0])
+            ctx.copy_shape(node.output[0], cast_back_node.output[0])
             ctx.set_dtype(node.output[0], mean_type)
 
         consumers = [ctx.find_output_consumers(output_name) for output_name in node.output[1:]]
-- 
2.43.0


From 4328be123caa5302e55b00be5c5bf8d9ef0ef05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 065/103] fix: a transpose is not pushed past an operator whose
 other input has a higher rank

---
 tf2onnx/optimizer/transpose_optimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f2c91c7..9291a35 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -246,6 +246,10 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _handle_node_having_branches(self, trans, node):
         if not self._should_push_transpose(trans, node) or len(node.output) != 1:
             return False
+        # broadcasting against an input of a higher rank changes the axes the transpose works on
+        input_shapes = [self._g.get_shape(inp) for inp in node.input]
+        if any(shape is not None and len(shape) > get_transpose_rank(trans) for shape in input_shapes):
+            return False
         # create transpose pairs if some input are not.
         if not self._create_transpose_pairs_before_node(trans, node):
             return False
@@ -572,6 +576,9 @@ class TransposeOptimizer(GraphOptimizerBase):
         if not multiplier_input_node.is_const():
             return False
         multiplier = multiplier_input_node.get_tensor_value(as_list=False)
+        if len(multiplier.shape) > get_transpose_rank(trans):
+            # broadcasting changes the axes the transpose works on
+            return False
 
         # todo: apply this block if we have model case multiplier_input_id==0, and verify that.
         if multiplier_input_id == node.input[1]:
-- 
2.43.0


From 37b340cfb983063c9f125604506ffb242f1433b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 066/103] fix: a transpose pushed through Shape respects start
 and end

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 9291a35..2c7f787 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1019,7 +1019,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         self._g.remove_node(trans.name)
         self._g.remove_node(node.name)
         shape_node = self._g.make_node("Shape", [trans.input[0]])
-        const_node = self._g.make_const(utils.make_name("Const"), np.array(trans.get_attr("perm").ints))
+        perm = trans.get_attr_value("perm")[node.get_attr_value("start", 0):node.get_attr_value("end")]
+        const_node = self._g.make_const(utils.make_name("Const"), np.array(perm, np.int64))
         gather_node = self._g.make_node("Gather", [shape_node.output[0], const_node.output[0]], outputs=node.output)
         self._g.set_shape(gather_node.output[0], output_shape)
         self._g.set_dtype(gather_node.output[0], output_dtype)
-- 
2.43.0


From 301a2e2acef34677e282f1f1304ac90e3e448902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 067/103] fix: a transpose pushed through Pad respects the axes
 and Split has num_outputs from opset 18 only

---
 tf2onnx/optimizer/transpose_optimizer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 2c7f787..9700cb8 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -295,6 +295,11 @@ class TransposeOptimizer(GraphOptimizerBase):
             input_index += 1
         return input_index
 
+    def _replace_const_input(self, node, input_index, value):
+        # the const might be shared, even with another input of the same node
+        const = self._g.make_const(utils.make_name(node.inputs[input_index].name), value)
+        self._g.replace_input(node, node.input[input_index], const.output[0], input_index)
+
     # the assumption is: both node and trans have only 1 output
     def _switch_transpose_and_node(self, node, trans, update_shape=True):
         if not self._nodes_has_single_consumer_node([trans]):
@@ -827,6 +832,10 @@ class TransposeOptimizer(GraphOptimizerBase):
         def permute_pads(pads):
             return [pads[i] for i in perm_inv] + [pads[i + trans_rank] for i in perm_inv]
 
+        if len(node.input) > 3 and node.input[3]:
+            # pads only some of the axes
+            return False
+
         if self._g.opset < 11:
             pads = node.get_attr('pads').ints  # [x1_begin, x2_begin...x1_end, x2_end,...]
             new_pads = np.array(permute_pads(pads), np.int64)
@@ -835,17 +844,14 @@ class TransposeOptimizer(GraphOptimizerBase):
 
         input1 = node.inputs[1]
         if input1.is_const():
-            if not self._nodes_has_single_consumer_node([input1]):
-                input1 = self._g.copy_const(input1)
-                self._g.replace_input(node, node.input[1], input1.output[0], 1)
             pads = input1.get_tensor_value()
-            new_pads = np.array(permute_pads(pads), np.int64)
-            input1.set_tensor_value(new_pads)
+            self._replace_const_input(node, 1, np.array(permute_pads(pads), np.int64))
             return self._switch_transpose_and_node(node, trans)
         # when the second input is not a constant, let's shuffle it with Split followed by Concat
         # there are examples of models, where this non-constant input
         # gets constant folded anyway by a framework.
-        split = self._g.make_node("Split", inputs=[node.input[1]], attr={'num_outputs': trans_rank * 2},
+        split_attr = {'num_outputs': trans_rank * 2} if self._g.opset >= 18 else {}
+        split = self._g.make_node("Split", inputs=[node.input[1]], attr=split_attr,
                                   output_count=trans_rank * 2)
         pads = split.output
         new_pads = self._g.make_node("Concat", permute_pads(pads), {'axis': 0})
-- 
2.43.0


From a18d4c67f77518682beabfdaafb800afaa4dd26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 068/103] fix: a transpose pushed through Slice, Tile or a
 reduction does not change a constant another input uses

---
 tf2onnx/optimizer/transpose_optimizer.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 9700cb8..2b3cb77 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -929,13 +929,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             perm = trans.get_attr('perm').ints
             axes = [perm[axes[i]] for i in range(len(axes))]
             new_axes = np.array(axes, dtype=np.int64)
-            if self._nodes_has_single_consumer_node([node.inputs[1]]):
-                node.inputs[1].set_tensor_value(new_axes)
-            else:
-                new_axes_const = self._g.make_const(
-                    utils.make_name(node.inputs[1].name), new_axes
-                )
-                self._g.replace_input(node, node.input[1], new_axes_const.output[0], 1)
+            self._replace_const_input(node, 1, new_axes)
             return self._switch_transpose_and_node(node, trans)
         return False
 
@@ -953,10 +947,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         perm_inv = invert_perm(trans.get_attr_value("perm"))
         repeats_val = [repeats[p] for p in perm_inv]
         new_repeats = np.array(repeats_val, dtype=np.int64)
-        if not self._nodes_has_single_consumer_node([node.inputs[1]]):
-            new_inp = self._g.copy_const(node.inputs[1])
-            self._g.replace_input(node, node.input[1], new_inp.output[0], 1)
-        node.inputs[1].set_tensor_value(new_repeats)
+        self._replace_const_input(node, 1, new_repeats)
         return True
 
     def _reducesum_handler(self, trans, node):
@@ -984,13 +975,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             axes = [perm[axes[i]] for i in range(len(axes))]
             # axes node might be shared
             new_axes = np.array(axes, dtype=dtype)
-            if self._nodes_has_single_consumer_node([node.inputs[3]]):
-                node.inputs[3].set_tensor_value(new_axes)
-            else:
-                new_axes_const = self._g.make_const(
-                    utils.make_name(node.inputs[3].name), new_axes
-                )
-                self._g.replace_input(node, node.input[3], new_axes_const.output[0], 3)
+            self._replace_const_input(node, 3, new_axes)
             return self._switch_transpose_and_node(node, trans)
         return False
 
-- 
2.43.0


From bf4728875d659fddc051c25f232d26e3d83fd46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 069/103] fix: a transpose is only pushed through reductions
 whose axes are known

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 2b3cb77..f6b760a 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -924,6 +924,11 @@ class TransposeOptimizer(GraphOptimizerBase):
         keepdims = node.get_attr("keepdims")
         if keepdims and keepdims.i == 0:
             return False
+        if len(node.input) < 2 or not node.input[1]:
+            if node.get_attr_value("noop_with_empty_axes", 0):
+                return False
+            # reduces all axes
+            return self._switch_transpose_and_node(node, trans)
         if node.inputs[1].is_const():
             axes = node.inputs[1].get_tensor_value()
             perm = trans.get_attr('perm').ints
-- 
2.43.0


From 609ed2f9054ce597730e4dcdebe81d24aae1ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 070/103] fix: a transpose pushed through QuantizeLinear or
 DequantizeLinear respects the default axis

---
 tf2onnx/optimizer/transpose_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f6b760a..48f7f82 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -995,9 +995,12 @@ class TransposeOptimizer(GraphOptimizerBase):
                 return False
         if not self._switch_transpose_and_node(node, trans):
             return False
-        if 'axis' in node.attr:
+        if self._g.opset >= 13 and node.input[1:]:
             perm = trans.get_attr_value("perm")
-            axis = node.get_attr_value("axis")
+            axis = node.get_attr_value("axis", 1)
+            if not -len(perm) <= axis < len(perm):
+                # per tensor quantization does not look at the axis
+                return True
             new_axis = perm[axis]
             node.set_attr("axis", new_axis)
         return True
-- 
2.43.0


From a93abbd0b59131ab1051e3ccdc92e7a4505f5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 071/103] fix: a transpose pushed through Mul or Sum keeps the
 recorded shapes

---
 tf2onnx/optimizer/transpose_optimizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 48f7f82..96abad4 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -563,6 +563,9 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.replace_input(node, node.input[0], trans.input[0], 0)
             self._g.replace_input(node, node.input[1], trans.input[0], 1)
             self._g.replace_input(trans, trans.input[0], node.output[0], 0)
+            shape = self._g.get_shape(node.output[0])
+            if shape:
+                self._g.set_shape(node.output[0], [shape[i] for i in invert_perm(trans.get_attr_value("perm"))])
             return True
 
         # convert  mul(trans(x), trans(y)) ->  trans(mul(x, y))
@@ -632,7 +635,6 @@ class TransposeOptimizer(GraphOptimizerBase):
 
     def _sum_handler(self, trans, node):
         inputs = node.inputs
-        trans_shape = self._g.get_shape(trans.output[0])
         perm = list(trans.get_attr('perm').ints)
         untrans_idx = [perm.index(i) for i in range(len(perm))]
 
@@ -647,7 +649,7 @@ class TransposeOptimizer(GraphOptimizerBase):
                 # const is special case, in case of broadcasting
                 # ensure rank matches
                 n_shape = self._g.get_shape(n.output[0])
-                if len(n_shape) != len(trans_shape):
+                if len(n_shape) != len(perm):
                     return False
             else:
                 if list(n.get_attr('perm').ints) != perm:
@@ -662,10 +664,11 @@ class TransposeOptimizer(GraphOptimizerBase):
         # adjust shape if present
         shape = self._g.get_shape(node.output[0])
         if shape:
+            self._g.set_shape(trans.output[0], shape)
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
 
         # update constants, remove dangling transposes
-        for n in inputs:
+        for n in {n.name: n for n in inputs}.values():
             if n.is_const():
                 val = n.get_tensor_value(as_list=False)
                 new_val = np.transpose(val, untrans_idx)
-- 
2.43.0


From cd326732cc25c2a0a59b72b153adf5ce4aa54f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 072/103] fix: a transpose pushed through Softmax of older
 opsets respects a negative axis

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 96abad4..cfed066 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -880,6 +880,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         # For older opsets, the "axis" attribute determines the coercion point for coercing the input tensor to 2D.
         # We can safely switch transpose and node if the permutation does not make any axes cross that boundary.
         coercion_axis = node.get_attr_value("axis", 1)
+        if coercion_axis < 0:
+            coercion_axis += trans_rank
         for from_axis, to_axis in enumerate(perm):
             if (from_axis < coercion_axis <= to_axis) or (from_axis >= coercion_axis > to_axis):
                 return False
-- 
2.43.0


From d3b2759c0bff659eae87aac80a23aedb55c453a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 073/103] fix: a bias is only merged into a convolution along
 its channels

---
 tf2onnx/optimizer/transpose_optimizer.py | 29 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index cfed066..474c9ed 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -484,7 +484,8 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _add_handler(self, trans, node):
         if node.inputs[1].is_const():
             t_p = trans.inputs[0]
-            if t_p.type in ("Conv", "ConvTranspose") and len(t_p.input) == 2:
+            if t_p.type in ("Conv", "ConvTranspose") and len(t_p.input) == 2 and \
+                    trans.get_attr_value("perm") in [NCHW_TO_NHWC, NCDHW_TO_NDHWC]:
                 # if Conv or ConvTranspose's bias input is not set, then we set, otherwise, we don't set
                 # todo: maybe we can add already set bias with the input??? try later
 
@@ -499,21 +500,29 @@ class TransposeOptimizer(GraphOptimizerBase):
                 target_node = node.inputs[1]
                 numpy_val = target_node.get_tensor_value(as_list=False)
                 # Optional 1D bias to be added to the convolution, has size of M
-                if len(numpy_val.shape) - numpy_val.shape.count(1) > 1:
+                if not numpy_val.shape or len(numpy_val.shape) > get_transpose_rank(trans) or \
+                        any(dim != 1 for dim in numpy_val.shape[:-1]):
                     self.logger.debug("Bias is not 1D, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
                 bias_size = max(numpy_val.shape)
-                size_m = t_p.inputs[1].output_shapes[0][0]
+                weights_shape = t_p.inputs[1].output_shapes[0]
+                if weights_shape is None:
+                    return self._handle_node_having_branches(trans, node)
+                if t_p.type == "ConvTranspose":
+                    size_m = weights_shape[1] * t_p.get_attr_value("group", 1)
+                else:
+                    size_m = weights_shape[0]
                 if bias_size != size_m:
                     self.logger.debug("Bias size is not M, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
-                target_val = numpy_val.reshape(bias_size)
-                target_node.set_tensor_value(target_val)
+                # the const might be shared
+                bias = self._g.make_const(utils.make_name(target_node.name), numpy_val.reshape(bias_size))
 
-                conv_inputs = [t_p.input[0], t_p.input[1], node.input[1]]
-                conv_node = self._g.make_node(t_p.type, conv_inputs, attr=t_p.get_onnx_attrs())
+                conv_inputs = [t_p.input[0], t_p.input[1], bias.output[0]]
+                conv_node = self._g.make_node(t_p.type, conv_inputs, attr=t_p.get_onnx_attrs(),
+                                              shapes=t_p.output_shapes, dtypes=t_p.output_dtypes)
                 self._g.replace_input(trans, trans.input[0], utils.port_name(conv_node.name), 0)
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
                 self._g.remove_node(t_p.name)
@@ -597,14 +606,16 @@ class TransposeOptimizer(GraphOptimizerBase):
             can_opt = can_opt and self._nodes_has_single_consumer_node([t_p])
             # make sure multiplier with shape (N,) or (1, N) or (1, 1, N) ....
             can_opt = can_opt and trans.get_attr_value("perm") == NCHW_TO_NHWC \
-                and all(shape == 1 for shape in multiplier.shape[:-1])
+                and all(shape == 1 for shape in multiplier.shape[:-1]) \
+                and (not multiplier.shape or multiplier.shape[-1] in [1, t_p.inputs[1].output_shapes[0][0]])
             if can_opt:
                 conv = t_p
                 numpy_val = conv.inputs[1].get_tensor_value(as_list=False)
                 transposed_val = np.transpose(numpy_val, (2, 3, 1, 0))
                 mul_val = multiplier
                 result = np.multiply(transposed_val, mul_val)
-                conv.inputs[1].set_tensor_value(np.transpose(result, (3, 2, 0, 1)))
+                # the weights might be shared
+                self._replace_const_input(conv, 1, np.transpose(result, (3, 2, 0, 1)))
 
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
                 self._g.remove_node(node.name)
-- 
2.43.0


From 6557ee114e1e268ab65a73e3d30d20055ff48d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:11 +0000
Subject: [PATCH 074/103] fix: a transpose of an empty tensor does not become a
 reshape to zero dims

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 474c9ed..eac0c11 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -72,7 +72,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             target_t = reshape_op.inputs[0].get_tensor_value(as_list=False)
             target_shape = reshape_op.inputs[1].get_tensor_value(as_list=True)
             for i, dim in enumerate(target_shape):
-                if dim == 0:
+                if dim == 0 and not reshape_op.get_attr_value("allowzero", 0):
                     # In ORT a dim of 0 means the shape stays the same.
                     target_shape[i] = target_t.shape[i]
             new_data = np.reshape(target_t, target_shape)
@@ -99,7 +99,8 @@ class TransposeOptimizer(GraphOptimizerBase):
             perm_shape = [tagged_shape[p] for p in perm]
             trim_perm_shape = [d for d in perm_shape if d != 1]
 
-            if trim_perm_shape != trim_shape:
+            if trim_perm_shape != trim_shape or 0 in input_shape:
+                # (a dim of 0 means to Reshape that the dim stays the same)
                 return None
 
             if input_shape.count(-1) <= 1:
-- 
2.43.0


From 7381e422c5236d74957e1f15dd48b0f00e657cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 075/103] fix: a transpose moved out of a loop body leaves the
 shape of the loop's output in step

---
 tf2onnx/optimizer/loop_optimizer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/loop_optimizer.py b/tf2onnx/optimizer/loop_optimizer.py
index d52d1a5..094bda5 100644
--- a/tf2onnx/optimizer/loop_optimizer.py
+++ b/tf2onnx/optimizer/loop_optimizer.py
@@ -56,13 +56,13 @@ class LoopOptimizer(GraphOptimizerBase):
             # 1 delete node in body graph if possible
             # only consider two case: trans is output, or transpose > identity > output
             need_process = False
-            if node.type == "Transpose" and self.num_consumers(body_graph, node) == 1:
+            if node.type == "Transpose" and node.get_attr("perm") and self.num_consumers(body_graph, node) == 1:
                 trans = node
                 new_output = node.input[0]
                 body_graph.remove_node(node.name)
                 need_process = True
             elif node.type == "Identity" and node.inputs[0].type == "Transpose" \
-                    and self.num_consumers(body_graph, node) == 1\
+                    and node.inputs[0].get_attr("perm") and self.num_consumers(body_graph, node) == 1\
                     and self.num_consumers(body_graph, node.inputs[0]) == 1:
                 trans = node.inputs[0]
                 new_output = node.inputs[0].input[0]
@@ -78,7 +78,11 @@ class LoopOptimizer(GraphOptimizerBase):
                 ori_perm = list(trans.get_attr("perm").ints)
                 new_perm = [0] + [i + 1 for i in ori_perm]  # body output's rank is m > rank of loop's output is m+1
                 name = make_name("trans_moved_from_loop_body")
-                _ = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                shape = parent_graph.get_shape(name_in_parent)
+                new_trans = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                if shape is not None:
+                    parent_graph.set_shape(new_trans.output[0], shape)
+                    parent_graph.set_shape(name_in_parent, [shape[new_perm.index(i)] for i in range(len(shape))])
                 graph_is_changed = True
 
         return graph_is_changed
-- 
2.43.0


From 732256580583637f39cacc20a77b1b8303c83587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 076/103] fix: folding a reshape of a dequantized constant
 updates its recorded shape

---
 tf2onnx/optimizer/const_dequantize_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/const_dequantize_optimizer.py b/tf2onnx/optimizer/const_dequantize_optimizer.py
index 5fbfccc..68d7e28 100644
--- a/tf2onnx/optimizer/const_dequantize_optimizer.py
+++ b/tf2onnx/optimizer/const_dequantize_optimizer.py
@@ -62,6 +62,8 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
             dequant_const = graph.copy_const(dequant_const)
             graph.replace_input(dequant_node, dequant_node.input[0], dequant_const.output[0], 0)
         dequant_const.set_tensor_value(const_outputs[0])
+        graph.set_shape(dequant_const.output[0], const_outputs[0].shape)
+        graph.set_shape(dequant_node.output[0], const_outputs[0].shape)
         return True
 
     @staticmethod
-- 
2.43.0


From 66608c9a32734a4bdb95ee88d64c1abc4d2b2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:48 +0000
Subject: [PATCH 077/103] fix: two reshapes are only merged when the second
 does not copy dims of the first

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3fa1a0e..c1afbd8 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -267,6 +267,11 @@ class BackToBackOptimizer(GraphOptimizerBase):
         if node2.type != 'Reshape':
             return []
 
+        # a dim of 0 refers to the output of the first reshape
+        if not node2.get_attr_value("allowzero", 0) and \
+                (not node2.inputs[1].is_const() or 0 in node2.inputs[1].get_tensor_value(as_list=True)):
+            return []
+
         g.replace_inputs(node2, [node.input[0], node2.input[1]])
         g.remove_node(node.name)
         return []
-- 
2.43.0


From 38132dcc05be08078850cf28c04c5be5bcd9a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:45 +0000
Subject: [PATCH 078/103] fix: removing casts between casts keeps those which
 round, overflow or truncate

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index c1afbd8..bc36c7c 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -6,6 +6,7 @@
 """
 
 import numpy as np
+from onnx import TensorProto
 
 from tf2onnx.utils import ONNX_DTYPE_NAMES  # lgtm[py/unsafe-cyclic-import]
 
@@ -26,6 +27,19 @@ def _register_func(op_type):
     return _internal_fun
 
 
+def _cast_keeps_values(from_type, to_type):
+    """True if a cast of an integer, bool or float tensor neither truncates nor rounds to a narrower type."""
+    float_bits = {TensorProto.FLOAT16: 16, TensorProto.FLOAT: 32, TensorProto.DOUBLE: 64}
+    int_bits = {TensorProto.BOOL: 1, TensorProto.INT8: 8, TensorProto.UINT8: 8, TensorProto.INT16: 16,
+                TensorProto.UINT16: 16, TensorProto.INT32: 32, TensorProto.UINT32: 32, TensorProto.INT64: 64,
+                TensorProto.UINT64: 64}
+    if to_type in float_bits:
+        if from_type in float_bits:
+            return float_bits[from_type] <= float_bits[to_type]
+        return from_type in int_bits and (to_type != TensorProto.FLOAT16 or int_bits[from_type] <= 8)
+    return from_type in int_bits and to_type in int_bits and int_bits[from_type] <= int_bits[to_type]
+
+
 class BackToBackOptimizer(GraphOptimizerBase):
     """Remove back-to-back nodes e.g. 'Cast'
     """
@@ -94,18 +108,20 @@ class BackToBackOptimizer(GraphOptimizerBase):
         # otherwise, check consumer cast nodes for a target type
         # that contains more information than current type
         can_reduce = True
+        keeps_values = _cast_keeps_values(g.get_dtype(node.input[0]), type1)
         for node2 in consumer_nodes:
             type2 = node2.get_attr('to').i
             type2_name = ONNX_DTYPE_NAMES[type2] if type2 in ONNX_DTYPE_NAMES else ''
 
             if 'float' in type1_name or type1_name == 'double':
-                # high information type. ok to eliminate
-                pass
+                # high information type. ok to eliminate, unless the value had more
+                if type1 != type2 and not keeps_values:
+                    can_reduce = False
             elif 'int' in type1_name:
                 # int* and uint* are mix of high and low information.
                 # for safety, keep the current node, unless type2 is bool,
-                # in which case it's ok to remove node
-                if type1 != type2 and type2_name != 'bool':
+                # in which case it's ok to remove node if it does not truncate
+                if type1 != type2 and (type2_name != 'bool' or not keeps_values):
                     can_reduce = False
             elif type1_name == 'bool':
                 # bool is low information, so don't eliminate
-- 
2.43.0


From bec4e97e9ed2c5bbc47c8d8ba54da1528f84fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 079/103] fix: an output computed by Einsum keeps its shape and
 type when it is decomposed

---
 tf2onnx/optimizer/einsum_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index a1f79f0..92b280f 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -2314,12 +2314,13 @@ class EinsumOptimizer(GraphOptimizerBase):
                 self.logger.info(
                     "replacing einsum node %r by its decomposed version, name of the last "
                     "node %r.", node.name, last_node.name)
+                shapes, dtypes = node.output_shapes, node.output_dtypes
                 graph.replace_all_inputs(node.output[0], last_node.output[0])
                 graph.safe_remove_nodes([node])
                 if node.output[0] in graph.outputs:
                     graph.make_node(
                         'Identity', [last_node.output[0]], outputs=[node.output[0]],
-                        name="%s_final" % node.name)
+                        name="%s_final" % node.name, shapes=shapes, dtypes=dtypes)
                 return True
         elif equation != new_equation_obj.equation_:
             node.attr['equation'].s = new_equation_obj.equation_.encode('ascii')
-- 
2.43.0


From 3f1fde5ad363c35fa7b15c0b219ec81e9239d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 080/103] fix: transposes are not pushed across the borders of
 loop and branch bodies

---
 tf2onnx/optimizer/transpose_optimizer.py | 32 +++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index eac0c11..f6bff18 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -336,6 +336,10 @@ class TransposeOptimizer(GraphOptimizerBase):
                 self.logger.debug("cannot move transpose down since it met output node %s", p.name)
                 return False
 
+            if p.graph is not self._g and p.type not in ["Identity", "Transpose"]:
+                self.logger.debug("cannot move transpose down into the body graph of %s", p.name)
+                return False
+
             if p.type in self._handler_map:
                 op_handler = self._handler_map[p.type]
                 return op_handler(trans, p)
@@ -439,7 +443,8 @@ class TransposeOptimizer(GraphOptimizerBase):
 
         non_nhwc_trans_inputs = []
         for input_id, n in zip(node.input, node.inputs):
-            if not is_tranpose_of_type(n, perm):
+            # (a transpose of an outer graph stays there)
+            if not is_tranpose_of_type(n, perm) or n.graph is not self._g:
                 # check in case node has two inputs coming from a same node output.
                 if [input_id, n] not in non_nhwc_trans_inputs:
                     non_nhwc_trans_inputs.append([input_id, n])
@@ -485,7 +490,7 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _add_handler(self, trans, node):
         if node.inputs[1].is_const():
             t_p = trans.inputs[0]
-            if t_p.type in ("Conv", "ConvTranspose") and len(t_p.input) == 2 and \
+            if t_p.type in ("Conv", "ConvTranspose") and len(t_p.input) == 2 and t_p.graph is self._g and \
                     trans.get_attr_value("perm") in [NCHW_TO_NHWC, NCDHW_TO_NDHWC]:
                 # if Conv or ConvTranspose's bias input is not set, then we set, otherwise, we don't set
                 # todo: maybe we can add already set bias with the input??? try later
@@ -579,7 +584,8 @@ class TransposeOptimizer(GraphOptimizerBase):
             return True
 
         # convert  mul(trans(x), trans(y)) ->  trans(mul(x, y))
-        if is_tranpose_of_type(multiplier_input_node, trans.get_attr_value("perm")):
+        if multiplier_input_node.graph is self._g and \
+                is_tranpose_of_type(multiplier_input_node, trans.get_attr_value("perm")):
             if not self._nodes_has_single_consumer_node([multiplier_input_node]):
                 return False
             input_index = self._get_input_index_for_trans(node, multiplier_input_node)
@@ -603,7 +609,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             t_p = trans.inputs[0]
             trans_rank = get_transpose_rank(trans)
             # make sure conv don't have bias set
-            can_opt = t_p.type == "Conv" and t_p.inputs[1].is_const() and len(t_p.input) == 2 and trans_rank == 4
+            can_opt = t_p.type == "Conv" and t_p.graph is self._g and t_p.inputs[1].is_const() and len(t_p.input) == 2 and trans_rank == 4
             can_opt = can_opt and self._nodes_has_single_consumer_node([t_p])
             # make sure multiplier with shape (N,) or (1, N) or (1, 1, N) ....
             can_opt = can_opt and trans.get_attr_value("perm") == NCHW_TO_NHWC \
@@ -633,14 +639,11 @@ class TransposeOptimizer(GraphOptimizerBase):
 
         # if multiplier has shape (N,) or (1, N) or (1, 1, N) ....
         if np.prod(multiplier.shape) == multiplier.shape[-1]:
-            if not self._nodes_has_single_consumer_node([multiplier_input_node]):
-                new_inp = self._g.copy_const(multiplier_input_node)
-                self._g.replace_input(node, multiplier_input_id, new_inp.output[0], multiplier_input_idx)
-                multiplier_input_node = new_inp
             perm = list(trans.get_attr('perm').ints)
             new_shape = np.ones(len(perm), dtype=np.int32)
             new_shape[perm[-1]] = multiplier.shape[-1]
-            multiplier_input_node.set_tensor_value(multiplier.reshape(new_shape))
+            # the const might be shared
+            self._replace_const_input(node, multiplier_input_idx, multiplier.reshape(new_shape))
             return self._switch_transpose_and_node(node, trans)
 
         return False
@@ -663,6 +666,8 @@ class TransposeOptimizer(GraphOptimizerBase):
                 n_shape = self._g.get_shape(n.output[0])
                 if len(n_shape) != len(perm):
                     return False
+            elif n.graph is not self._g:
+                return False
             else:
                 if list(n.get_attr('perm').ints) != perm:
                     return False
@@ -680,13 +685,12 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
 
         # update constants, remove dangling transposes
-        for n in {n.name: n for n in inputs}.values():
+        for i, n in enumerate(inputs):
             if n.is_const():
                 val = n.get_tensor_value(as_list=False)
-                new_val = np.transpose(val, untrans_idx)
-                n.set_tensor_value(new_val)
-            elif n.name != trans.name:
-                self._g.remove_node(n.name)
+                self._replace_const_input(node, i, np.transpose(val, untrans_idx))
+        for name in {n.name for n in inputs if not n.is_const() and n.name != trans.name}:
+            self._g.remove_node(name)
         return True
 
     def _identity_handler(self, trans, node):
-- 
2.43.0


From cb6454bd7c5425e8309eace0c0a7720b8b31b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:02 +0000
Subject: [PATCH 081/103] fix: a transpose swapped with an operator records the
 type of its new input

---
 tf2onnx/optimizer/transpose_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f6bff18..2d10180 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -312,6 +312,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         self._g.replace_input(node, node.input[input_index], trans.input[0], input_index)
         self._g.replace_input(trans, trans.input[0], node.output[0], 0)
 
+        self._g.set_dtype(trans.output[0], self._g.get_dtype(node.output[0]))
         # need to transpose node shape in backward direction as well after switch
         # otherwise, reshape added in post_optimize_action may not work correctly
         shape = self._g.get_shape(node.output[0])
-- 
2.43.0


From 6043271be4cf5e294713dfb4e8eb71ea2ffe73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:02 +0000
Subject: [PATCH 082/103] fix: a reshape taking the place of a transpose allows
 for empty tensors of unknown shape

---
 tf2onnx/optimizer/transpose_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 2d10180..b401491 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -103,6 +103,10 @@ class TransposeOptimizer(GraphOptimizerBase):
                 # (a dim of 0 means to Reshape that the dim stays the same)
                 return None
 
+            if input_shape.count(-1) > 1 and graph.opset < 14:
+                # an unknown dim might be 0, which means to Reshape that the dim stays the same
+                return None
+
             if input_shape.count(-1) <= 1:
                 new_shape = [input_shape[p] for p in perm]
                 return graph.make_const(utils.make_name("new_shape"), np.array(new_shape, dtype=np.int64)).output[0]
@@ -128,8 +132,9 @@ class TransposeOptimizer(GraphOptimizerBase):
                     shapes = op.output_shapes
                     dtypes = op.output_dtypes
                     self._g.remove_node(op.name)
+                    attr = {"allowzero": 1} if input_shape.count(-1) > 1 else {}
                     self._g.make_node("Reshape", [op.input[0], new_shape], name=op.name, outputs=op.output,
-                                      shapes=shapes, dtypes=dtypes)
+                                      attr=attr, shapes=shapes, dtypes=dtypes)
                     need_sort = True
         if need_sort:
             self._g.topological_sort(self._g.get_nodes())
-- 
2.43.0


From b721c5aaa0f4b492f6f901a0c5a540ca05e7c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:32 +0000
Subject: [PATCH 083/103] fix: removing a node of a body graph keeps track of
 the other users of what it took from outside

---
 tf2onnx/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 1c3887a..8aafcc1 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1423,9 +1423,11 @@ class Graph(object):
         "Unregister node taking a specific input."
         node_name = node.name
         if not only_graph:
-            if input_name in self._output_to_consumers[input_name]:
-                if node_name in self._output_to_consumers[input_name]:
-                    self._output_to_consumers[input_name].remove(node_name)
+            if node_name in self._output_to_consumers[input_name] and input_name not in node.input:
+                self._output_to_consumers[input_name].remove(node_name)
+        if self.find_output_consumers(input_name):
+            # other nodes still take it
+            return
         if (self.parent_graph is not None and
                 input_name in self.parent_graph._input_to_graph and
                 id(self) in self.parent_graph._input_to_graph[input_name]):
-- 
2.43.0


From 73d8e32e9c44521de0d664e2265a950eec37fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:32 +0000
Subject: [PATCH 084/103] fix: a node which takes a tensor twice stays its
 consumer when one of the inputs is replaced

---
 tf2onnx/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 8aafcc1..4b92ccd 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1493,7 +1493,7 @@ class Graph(object):
 
         to_ops = self._output_to_consumers.get(old_input, None)
         if to_ops is not None:
-            if node.name in to_ops:
+            if node.name in to_ops and old_input not in node.input:
                 # A node may take twice the same entry.
                 to_ops.remove(node.name)
 
-- 
2.43.0


From 4ca156e05ac0c9fc520592018f1599c9976c772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:40 +0000
Subject: [PATCH 085/103] fix: a reshape whose shape becomes a constant copies
 dims even if zeros were allowed before

---
 tf2onnx/optimizer/reshape_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index f12c681..062ebb2 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -64,6 +64,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
             return False
         utils.make_sure(len(symbolic_res[0].shape) == 1, "Shape must have rank 1")
         symbolic_shape = symbolic_res[0].tolist()
+        if any(val.is_const() and val.constant == 0 for val in symbolic_shape):
+            # a dim of 0 would stand for the dim of the input
+            return False
         product_cnt = len([val for val in symbolic_shape if val.has_multiple_terms()])
         idx_cnt = len([val for val in symbolic_shape if val.is_single_var()])
         if product_cnt > 1:
@@ -112,6 +115,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
         if new_reshape_shape is not None:
             graph.set_shape(node.output[0], new_reshape_shape)
         graph.replace_inputs(node, [node.input[0], const_shape])
+        if node.get_attr_value("allowzero", 0):
+            # a dim of 0 stands for the dim of the input now
+            node.set_attr("allowzero", 0)
         if shift < 0:
             unsqueeze_node = GraphBuilder(graph).make_unsqueeze({'data': node.input[0], 'axes': list(range(-shift))})
             graph.replace_inputs(node, [unsqueeze_node, const_shape])
-- 
2.43.0


From 91550a0d2506d261990ed6072cb2f9d7ca5f8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:51 +0000
Subject: [PATCH 086/103] fix: a transpose squeezed or reduced to a scalar is
 removed

---
 tf2onnx/optimizer/transpose_optimizer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index b401491..01b3c42 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -828,7 +828,8 @@ class TransposeOptimizer(GraphOptimizerBase):
             squeeze_axes = sorted(axes)
             trans_perm = list(trans.get_attr("perm").ints)
             new_perm, new_squeeze_axes = _calculate_new_attr(ori_perm=trans_perm, ori_squeeze_axes=squeeze_axes)
-            trans.set_attr("perm", new_perm)
+            if new_perm:
+                trans.set_attr("perm", new_perm)
             if self._g.opset <= 12:
                 node.set_attr("axes", new_squeeze_axes)
             else:
@@ -844,6 +845,9 @@ class TransposeOptimizer(GraphOptimizerBase):
             else:
                 new_squeeze_output_shape = [-1] * (trans_rank - len(new_squeeze_axes))
             self._g.set_shape(node.output[0], new_squeeze_output_shape)
+            if not new_perm:
+                # nothing left to transpose
+                self._remove_useless_tranpose(trans)
             return True
         return False
 
@@ -944,7 +948,11 @@ class TransposeOptimizer(GraphOptimizerBase):
             if shape:
                 new_shape = [shape[new_perm.index(i)] for i in range(len(new_perm))]
                 self._g.set_shape(node.output[0], new_shape)
-            trans.set_attr("perm", new_perm)
+            if new_perm:
+                trans.set_attr("perm", new_perm)
+            else:
+                # nothing left to transpose
+                self._remove_useless_tranpose(trans)
         return True
 
     def _reduce_latest_handler(self, trans, node):
-- 
2.43.0


From ee2a6965e4bb630965280f4f681dae634f56fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:59 +0000
Subject: [PATCH 087/103] fix: a graph knows what the bodies of its nodes take
 from it as soon as they become its bodies

---
 tf2onnx/graph.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 4b92ccd..b860b9f 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -362,7 +362,7 @@ class Node(object):
             self.graph.contained_graphs[self.name] = {}
 
         self.graph.contained_graphs[self.name].update({attr_name: graph})
-        graph.parent_graph = self.graph
+        graph.set_parent_graph(self.graph)
 
     def update_proto(self, external_tensor_storage=None):
         """Update protobuf from internal structure."""
@@ -520,7 +520,7 @@ class Graph(object):
             branches = {}
             if body_graphs:
                 for attr_name, body_graph in body_graphs.items():
-                    body_graph.parent_graph = self
+                    body_graph.set_parent_graph(self)
                     branches[attr_name] = body_graph
 
             _ = self.make_node(n.type, n.input, outputs=new_outputs, attr=n.attr, name=n.name,
@@ -1419,6 +1419,15 @@ class Graph(object):
             self.parent_graph._input_to_graph[input_name][id(self)] = self
             self.parent_graph._register_input_name(input_name, node, only_graph=True)
 
+    def set_parent_graph(self, parent_graph):
+        "Make the graph a body graph of another and register there what it takes from outside."
+        self.parent_graph = parent_graph
+        input_names = set(self._input_to_graph)
+        for node in self.get_nodes():
+            input_names.update(node.input)
+        for input_name in input_names:
+            self._register_input_name(input_name, None, only_graph=True)
+
     def _unregister_input_name(self, input_name, node, only_graph=False):
         "Unregister node taking a specific input."
         node_name = node.name
-- 
2.43.0


From 764a5cbd62d54f8a8f5c10a879fd085bba0ec782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 088/103] fix: a transpose pushed through a reduction which
 drops dims has the shape of what is left

---
 tf2onnx/optimizer/transpose_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 01b3c42..838afff 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -948,6 +948,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             if shape:
                 new_shape = [shape[new_perm.index(i)] for i in range(len(new_perm))]
                 self._g.set_shape(node.output[0], new_shape)
+                self._g.set_shape(trans.output[0], shape)
             if new_perm:
                 trans.set_attr("perm", new_perm)
             else:
-- 
2.43.0


From a63865c6681a1bf2724600e20ef66f4b979d1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:31 +0000
Subject: [PATCH 089/103] fix: quantization is only pushed past other nodes
 when it is per tensor and inside one graph

---
 tf2onnx/optimizer/q_dq_optimizer.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 7545b40..e882e35 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -34,9 +34,11 @@ class QDQOptimizer(GraphOptimizerBase):
         return graph
 
     def _optimize_quantize(self, quant_node, graph):
-        if 'axis' in quant_node.attr:
+        if not self.is_per_tensor(quant_node):
             return False
         node = quant_node.inputs[0]
+        if node is None or node.graph is not graph:
+            return False
         if node.type == "DequantizeLinear":
             # Remove DQ -> Q
             if not self.has_same_quantization_params(quant_node, node):
@@ -80,11 +82,13 @@ class QDQOptimizer(GraphOptimizerBase):
         return True
 
     def _optimize_dequantize(self, dequant_node, graph):
-        if 'axis' in dequant_node.attr:
+        if not self.is_per_tensor(dequant_node):
             return False
         # Push dequantize nodes down
         consumers = graph.find_output_consumers(dequant_node.output[0])
         for node in consumers:
+            if node.graph is not graph:
+                continue
             if self._optimize_dequantize_and_node(dequant_node, node, graph):
                 return True
         return False
@@ -96,7 +100,7 @@ class QDQOptimizer(GraphOptimizerBase):
         inp_indices, out_indices = tensor_idx
         for i in inp_indices:
             inp = node.inputs[i]
-            if inp.type != "DequantizeLinear":
+            if inp is None or inp.type != "DequantizeLinear":
                 return False
             if not self.has_same_quantization_params(inp, dequant_node):
                 return False
@@ -117,6 +121,14 @@ class QDQOptimizer(GraphOptimizerBase):
 
         return True
 
+    @staticmethod
+    def is_per_tensor(node):
+        """Per-channel quantization depends on an axis, which has a default value too."""
+        if 'axis' in node.attr:
+            return False
+        scale = node.inputs[1]
+        return scale is not None and scale.is_const() and scale.get_tensor_value(as_list=False).size == 1
+
     def has_same_quantization_params(self, node1, node2):
         if node1.get_attr_value("axis") != node2.get_attr_value("axis"):
             return False
-- 
2.43.0


From 4bfb59ff949bf06215e92de0d15f68c8dea51eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:31 +0000
Subject: [PATCH 090/103] fix: a dequantized constant is only folded by nodes
 of its own graph

---
 tf2onnx/optimizer/const_dequantize_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/const_dequantize_optimizer.py b/tf2onnx/optimizer/const_dequantize_optimizer.py
index 68d7e28..70f9c5a 100644
--- a/tf2onnx/optimizer/const_dequantize_optimizer.py
+++ b/tf2onnx/optimizer/const_dequantize_optimizer.py
@@ -37,17 +37,17 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
         if node.type not in ["Transpose", "Reshape", "Unsqueeze"]:
             return False
         dequant_node = node.inputs[0]
-        if dequant_node.type != "DequantizeLinear":
+        if dequant_node is None or dequant_node.type != "DequantizeLinear" or dequant_node.graph is not graph:
             return False
         if len(graph.find_output_consumers(dequant_node.output[0])) > 1:
             return False
         if not self._all_inputs_are_const(node.inputs[1:]) or self._is_graph_output(node, graph):
             return False
-        if not self._all_inputs_are_const(dequant_node.inputs):
+        if dequant_node.output[0] in graph.outputs or not self._all_inputs_are_const(dequant_node.inputs):
             return False
         if len(dequant_node.inputs[1].get_tensor_value(as_list=False).flatten()) != 1:
             # If using per-channel quantization, we must compute the new axis
-            old_axis = dequant_node.get_attr_value("axis")
+            old_axis = dequant_node.get_attr_value("axis", 1)
             input_shape = dequant_node.inputs[0].get_tensor_value(as_list=False).shape
             new_axis = self.compute_new_axis(node, graph, old_axis, input_shape)
             if new_axis is None:
-- 
2.43.0


From e8aa3b55bda6d2b5b922b848d1469eceb8072823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:44 +0000
Subject: [PATCH 091/103] fix: a transpose moved out of a loop also applies
 where the loop's result is an output of the graph

---
 tf2onnx/optimizer/loop_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/loop_optimizer.py b/tf2onnx/optimizer/loop_optimizer.py
index 094bda5..cc58788 100644
--- a/tf2onnx/optimizer/loop_optimizer.py
+++ b/tf2onnx/optimizer/loop_optimizer.py
@@ -56,6 +56,9 @@ class LoopOptimizer(GraphOptimizerBase):
             # 1 delete node in body graph if possible
             # only consider two case: trans is output, or transpose > identity > output
             need_process = False
+            if name_in_parent in parent_graph.outputs and parent_graph.parent_graph is None:
+                # the names of the model's outputs don't change
+                continue
             if node.type == "Transpose" and node.get_attr("perm") and self.num_consumers(body_graph, node) == 1:
                 trans = node
                 new_output = node.input[0]
@@ -80,6 +83,7 @@ class LoopOptimizer(GraphOptimizerBase):
                 name = make_name("trans_moved_from_loop_body")
                 shape = parent_graph.get_shape(name_in_parent)
                 new_trans = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                parent_graph.outputs = [new_trans.output[0] if o == name_in_parent else o for o in parent_graph.outputs]
                 if shape is not None:
                     parent_graph.set_shape(new_trans.output[0], shape)
                     parent_graph.set_shape(name_in_parent, [shape[new_perm.index(i)] for i in range(len(shape))])
-- 
2.43.0


From d246c4a7b05a6bb54bf0215b39000d7d1f00d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 092/103] fix: removing nodes and inputs from a graph keeps
 track of who takes which tensor

---
 tf2onnx/graph.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index b860b9f..b921717 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -696,8 +696,8 @@ class Graph(object):
         utils.make_sure(node_name in self._nodes_by_name, "node %s not in current graph, cannot remove", node_name)
         node = self.get_node_by_name(node_name)
         del self._nodes_by_name[node_name]
-        if node_name in self.contained_graphs:
-            del self.contained_graphs[node_name]
+        for body_graph in self.contained_graphs.pop(node_name, {}).values():
+            self._unregister_body_graph(body_graph)
 
         if node in self.inputs:
             self.inputs.remove(node)
@@ -739,6 +739,11 @@ class Graph(object):
             if op.name in self.contained_graphs:
                 remained_sub_graphs[op.name] = self.contained_graphs[op.name]
 
+        for op_name, body_graphs in self.contained_graphs.items():
+            if op_name not in remained_sub_graphs:
+                for body_graph in body_graphs.values():
+                    self._unregister_body_graph(body_graph)
+
         self._nodes = ops
         self.contained_graphs = remained_sub_graphs
         self._nodes_by_name = {op.name: op for op in ops}
@@ -1295,11 +1300,8 @@ class Graph(object):
         assert isinstance(node, Node) and isinstance(to_be_removed, str)
         if input_index is not None:
             assert node.input[input_index] == to_be_removed
-            if node.input[input_index] in self._output_to_consumers:
-                to_ops = self._output_to_consumers[node.input[input_index]]
-                if node.name in to_ops:
-                    to_ops.remove(node.name)
             del node.input[input_index]
+            self._unregister_input_name(to_be_removed, node)
             return
 
         for i, name in enumerate(node.input):
@@ -1308,8 +1310,8 @@ class Graph(object):
                     node.input.count(node.input[i]) <= 1,
                     "Node %r takes multiple times the same input %r. This case is not handled.",
                     node.name, node.input[i])
-                self._unregister_input_name(node.input[i], node)
                 del node.input[i]
+                self._unregister_input_name(to_be_removed, node)
                 break
 
         # don't remove output from parent since others might depend on it
@@ -1432,8 +1434,9 @@ class Graph(object):
         "Unregister node taking a specific input."
         node_name = node.name
         if not only_graph:
-            if node_name in self._output_to_consumers[input_name] and input_name not in node.input:
-                self._output_to_consumers[input_name].remove(node_name)
+            is_removed = self.get_node_by_name(node_name) is not node
+            if input_name in self._output_to_consumers and (is_removed or input_name not in node.input):
+                self._output_to_consumers[input_name].discard(node_name)
         if self.find_output_consumers(input_name):
             # other nodes still take it
             return
@@ -1443,6 +1446,14 @@ class Graph(object):
             del self.parent_graph._input_to_graph[input_name][id(self)]
             self.parent_graph._unregister_input_name(input_name, node, only_graph=True)
 
+    def _unregister_body_graph(self, body_graph):
+        "Unregister what a graph, which is no longer the body of a node of this graph, takes from outside."
+        for input_name, graphs in self._input_to_graph.items():
+            if graphs.pop(id(body_graph), None) is not None and self.parent_graph is not None \
+                    and not self.find_output_consumers(input_name):
+                graphs_of_parent = self.parent_graph._input_to_graph.get(input_name, {})
+                graphs_of_parent.pop(id(self), None)
+
     def replace_all_inputs(self, old_input, new_input, ops=None):
         """
         Replace all inputs pointing to old_input with new_input.
@@ -1513,18 +1524,14 @@ class Graph(object):
         """Replace node inputs."""
         assert isinstance(node, Node) and isinstance(new_inputs, list)
 
-        for old_input in node.input:
-            to_ops = self._output_to_consumers.get(old_input, None)
-            if to_ops is not None and old_input in to_ops:
-                # To avoid issues when a node
-                # takes twice the same entry.
-                to_ops.remove(old_input)
+        old_inputs = set(node.input)
+        node.input = new_inputs
+        for old_input in old_inputs:
+            self._unregister_input_name(old_input, node)
 
         for input_name in new_inputs:
             assert isinstance(input_name, str)
             self._register_input_name(input_name, node)
-
-        node.input = new_inputs
         return True
 
     def _extract_sub_graph_nodes(self, dest_node, input_checker=None):
-- 
2.43.0


From 438b943368e99874d48b8fd35f22515ad9b203a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 093/103] fix: changing the name of a node keeps its domain,
 its bodies and what its outputs are

---
 tf2onnx/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index b921717..a14cd33 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -909,13 +909,15 @@ class Graph(object):
             node._output = rename_list(node._output)
 
     def change_node_name(self, node, new_name):
-        """Remove node in current graph."""
+        """Change the name of a node in current graph, its outputs are named after it."""
         utils.make_sure(new_name not in self._nodes_by_name, "node %s not unique ", new_name)
         dtypes = node.output_dtypes
         shapes = node.output_shapes
+        branches = node.get_body_graphs()
         self.remove_node(node.name)
-        new_node = self.make_node(node.type, node.input, output_count=len(node.output),
-                                  attr=node.attr, dtypes=dtypes, shapes=shapes, name=new_name)
+        new_node = self.make_node(node.type, node.input, output_count=len(node.output), attr=node.attr,
+                                  dtypes=dtypes, shapes=shapes, name=new_name, domain=node.domain,
+                                  skip_conversion=node.skip_conversion, branches=branches)
         for i, old_output in enumerate(node.output):
             new_output = port_name(new_name, i)
             for j, k in enumerate(self.outputs):
-- 
2.43.0


From 31c12c1a09b529462df24d1bba1ed4d578414f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 094/103] fix: renaming tensors of a graph renames them in the
 bodies of its nodes

---
 tf2onnx/graph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index a14cd33..0532205 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -907,6 +907,19 @@ class Graph(object):
         for node in self._nodes:
             node._input = rename_list(node._input)
             node._output = rename_list(node._output)
+        self._rename_outer_tensors_of_bodies(tensors_to_rename)
+
+    def _rename_outer_tensors_of_bodies(self, tensors_to_rename):
+        """Replace names of tensors of this graph, or of graphs around it, which the bodies of its nodes take"""
+        self._input_to_graph = {tensors_to_rename.get(k, k): v for k, v in self._input_to_graph.items()}
+        for body_graphs in self.contained_graphs.values():
+            for g in body_graphs.values():
+                outer = {k: v for k, v in tensors_to_rename.items() if k not in g._output_to_node_name}
+                g._output_to_consumers = {outer.get(k, k): v for k, v in g._output_to_consumers.items()}
+                g.outputs = [outer.get(o, o) for o in g.outputs]
+                for node in g.get_nodes():
+                    node._input = [outer.get(i, i) for i in node._input]
+                g._rename_outer_tensors_of_bodies(outer)
 
     def change_node_name(self, node, new_name):
         """Change the name of a node in current graph, its outputs are named after it."""
-- 
2.43.0


From 1c2d2f9ef57675bd95632e9af8a5a4d86f2f5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:20 +0000
Subject: [PATCH 095/103] fix: replacing an input everywhere only registers the
 nodes which took it

---
 tf2onnx/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 0532205..6d07344 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1493,9 +1493,10 @@ class Graph(object):
 
         for node in ops:
             assert node is not None
-            if old_input in node.input and new_input in node.output:
+            if old_input not in node.input:
+                continue
+            if new_input in node.output:
                 raise RuntimeError("creating a circle in the graph is not allowed: " + node.name)
-            self._register_input_name(new_input, node)
 
             for i, input_name in enumerate(node.input):
                 if input_name == old_input:
-- 
2.43.0


From 6730e0b033856c6952f9896bff240d7426da585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 096/103] fix: models with constants given as plain numbers or
 strings can be loaded

---
 tf2onnx/graph.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 6d07344..641d0bb 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -761,7 +761,7 @@ class Graph(object):
                 raise ValueError("graph input '" + n.name + "' not exist")
         for o in self.outputs:
             if o not in self._output_to_node_name:
-                raise ValueError("graph output '" + o.name + "' not exist")
+                raise ValueError("graph output '" + o + "' not exist")
 
         self._dtypes = remained_dtypes
         self._output_shapes = remained_shapes
@@ -1758,6 +1758,7 @@ class GraphUtil(object):
         for n in graph_proto.node:
             if n.op_type == "Constant":
                 n.op_type = "Const"
+                GraphUtil._make_value_attribute(n)
 
             # some pytorch model had empty names - make one up
             if not n.name:
@@ -1780,6 +1781,21 @@ class GraphUtil(object):
                     n.set_body_graph_as_attr(attr_name, sub_g)
         return g
 
+    @staticmethod
+    def _make_value_attribute(const_proto):
+        """Constants of opset 12 and later can have their value in attributes which are not tensors."""
+        np_types = {"value_float": np.float32, "value_floats": np.float32, "value_int": np.int64,
+                    "value_ints": np.int64, "value_string": object, "value_strings": object}
+        for a in list(const_proto.attribute):
+            if a.name in np_types:
+                np_val = np.array(helper.get_attribute_value(a), dtype=np_types[a.name])
+                if np_val.dtype == object:
+                    tensor = helper.make_tensor("", TensorProto.STRING, np_val.shape, np_val.flatten().tolist())
+                else:
+                    tensor = numpy_helper.from_array(np_val)
+                const_proto.attribute.remove(a)
+                const_proto.attribute.append(helper.make_attribute("value", tensor))
+
     @staticmethod
     def get_node_count_from_onnx_graph(graph_proto):
         op_cnt = collections.Counter()
-- 
2.43.0


From d6de19a65f725d87661be134355dc7abf9eec052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:10 +0000
Subject: [PATCH 097/103] fix: nodes of a body may have the names of nodes
 around it

---
 tf2onnx/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 641d0bb..24637ef 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1075,7 +1075,7 @@ class Graph(object):
             for inp in sorted(all_input):
                 j = self.get_node_by_output(inp)
                 utils.make_sure(j is not None, "Cannot find node with output %r in graph %r", inp, self.graph_name)
-                if self.parent_graph and j.name not in op_name_to_index:
+                if j.graph is not self or self.parent_graph and j.name not in op_name_to_index:
                     # there might be some outer-scoped inputs for an inner Graph.
                     pass
                 else:
-- 
2.43.0


From a1968fc73990246c4ca7cb7220fe9d530c66e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:51 +0000
Subject: [PATCH 098/103] fix: large models keep their strings and the data of
 tensors which isn't raw

---
 tf2onnx/graph.py    | 6 +++++-
 tf2onnx/tf_utils.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 24637ef..33f93c0 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -102,8 +102,12 @@ class Node(object):
             return external_tensor_storage.node_to_modified_value_attr[self]
         if external_tensor_storage is None or a.type != AttributeProto.TENSOR:
             return a
-        if np.product(a.t.dims) > external_tensor_storage.external_tensor_size_threshold:
+        # strings can't be stored externally
+        if np.product(a.t.dims) > external_tensor_storage.external_tensor_size_threshold \
+                and a.t.data_type != TensorProto.STRING:
             a = copy.deepcopy(a)
+            if not a.t.HasField("raw_data"):
+                a.t.CopyFrom(numpy_helper.from_array(numpy_helper.to_array(a.t), a.t.name))
             tensor_name = self.name.strip() + "_" + str(external_tensor_storage.name_counter)
             for c in '~"#%&*:<>?/\\{|}':
                 tensor_name = tensor_name.replace(c, '_')
diff --git a/tf2onnx/tf_utils.py b/tf2onnx/tf_utils.py
index 2f3ddfa..b826686 100644
--- a/tf2onnx/tf_utils.py
+++ b/tf2onnx/tf_utils.py
@@ -211,7 +211,7 @@ def compress_graph_def(graph_def):
         if node_def.op == 'Const':
             tensor = node_def.attr["value"].tensor
             # Small constants are sometimes used to store shape information and must be maintained
-            if len(tensor.tensor_content) > 1000:
+            if len(tensor.tensor_content) > 1000 and tensor.dtype != types_pb2.DT_STRING:
                 make_sure(node_def.name not in const_node_values, "Two nodes in graph have same name %s", node_def.name)
                 const_node_values[node_def.name] = tensor.tensor_content
                 tensor.tensor_content = b''
-- 
2.43.0


From 8b327e091428ba4c92638ce648a22ed86190b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:51 +0000
Subject: [PATCH 099/103] fix: external tensors of nodes with long names or
 names with dots can be loaded

---
 tf2onnx/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 33f93c0..583c34e 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -108,8 +108,9 @@ class Node(object):
             a = copy.deepcopy(a)
             if not a.t.HasField("raw_data"):
                 a.t.CopyFrom(numpy_helper.from_array(numpy_helper.to_array(a.t), a.t.name))
-            tensor_name = self.name.strip() + "_" + str(external_tensor_storage.name_counter)
-            for c in '~"#%&*:<>?/\\{|}':
+            # file names are limited to 255 characters and ".." isn't allowed
+            tensor_name = self.name.strip()[:200] + "_" + str(external_tensor_storage.name_counter)
+            for c in ['..'] + list('~"#%&*:<>?/\\{|}'):
                 tensor_name = tensor_name.replace(c, '_')
             external_tensor_storage.name_counter += 1
             external_tensor_storage.name_to_tensor_data[tensor_name] = a.t.raw_data
-- 
2.43.0


From 3ff6f14e60b17afda94c847932fa0201cf63f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:58 +0000
Subject: [PATCH 100/103] fix: the optimizer comes to an end when a transpose
 can't be pushed after all

---
 tf2onnx/optimizer/transpose_optimizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 838afff..fb6ae2a 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -256,6 +256,12 @@ class TransposeOptimizer(GraphOptimizerBase):
         input_shapes = [self._g.get_shape(inp) for inp in node.input]
         if any(shape is not None and len(shape) > get_transpose_rank(trans) for shape in input_shapes):
             return False
+        # transposes with other consumers stay. (Pairs created in vain would be folded and created again and again)
+        perm = trans.get_attr_value("perm")
+        own_transposes = [n for n in node.inputs if is_tranpose_of_type(n, perm) and n.graph is self._g]
+        if not self._nodes_has_single_consumer_node(own_transposes):
+            self.logger.debug("input transpose does not have single consumer, skipping...")
+            return False
         # create transpose pairs if some input are not.
         if not self._create_transpose_pairs_before_node(trans, node):
             return False
@@ -464,6 +470,11 @@ class TransposeOptimizer(GraphOptimizerBase):
                 self.logger.warning(msg)
                 return False
 
+        for input_id, n in non_nhwc_trans_inputs:
+            shape = self._g.get_shape(input_id)
+            if shape is not None and len(shape) != trans_rank and shape_after_expand(shape) is None:
+                return False
+
         for input_id, n in non_nhwc_trans_inputs:
             shape = self._g.get_shape(input_id)
             # if rank of n is not transpose rank, then we need to insert a reshape op before inserting a transpose
@@ -482,8 +493,6 @@ class TransposeOptimizer(GraphOptimizerBase):
                 input_of_new_trans = input_id
             else:
                 shape = shape_after_expand(shape)
-                if shape is None:
-                    return False
                 const = self._g.make_const(utils.make_name("reshape_shape"), np.array(shape, np.int64)).output[0]
                 reshape = self._g.make_node("Reshape", [input_id, const]).output[0]
                 input_of_new_trans = reshape
-- 
2.43.0


From 5b25487934e32f4b564b1d00616f5ccc60ef253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:53 +0000
Subject: [PATCH 101/103] fix: transposes around a body don't count as removed
 by pushing one of the body

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index fb6ae2a..f631e79 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -378,7 +378,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         return True
 
     def _cost_to_transpose(self, node, inp_id):
-        if node.type in ["Const", "Transpose"]:
+        if node.type in ["Const", "Transpose"] and node.graph is self._g:
             # Transposes can be combined/folded, so there is no additional cost
             return 0
         prod = 1
@@ -403,7 +403,8 @@ class TransposeOptimizer(GraphOptimizerBase):
             perm_to_push_down, perm_to_push_up = perm_to_push_up, perm_to_push_down
 
         for n, inp_id in zip(node.inputs, node.input):
-            if is_tranpose_of_type(n, perm):
+            # (a transpose of an outer graph stays there, see _create_transpose_pairs_before_node)
+            if is_tranpose_of_type(n, perm) and n.graph is self._g:
                 optimization_gains += self._cost_to_transpose(n.inputs[0], n.input[0])
                 if perm in perm_to_push_down:
                     removed_nchws += 1
-- 
2.43.0


From a9c057d7b67814f62b09ab0e748dcb150b6d4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:54 +0000
Subject: [PATCH 102/103] fix: an output requested in channel-first layout
 doesn't transpose the other users of its tensor

---
 tf2onnx/tfonnx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index e81b37e..7861567 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -352,9 +352,9 @@ def transpose_outputs(ctx, outputs_as_nchw):
                     continue
                 # insert transpose
                 op_name = utils.make_name(node.name)
-                transpose = ctx.insert_new_node_on_output("Transpose", node.input[0], name=op_name)
-                transpose.set_attr("perm", constants.NHWC_TO_NCHW)
-                ctx.copy_shape(node.output[0], transpose.output[0])
+                transpose = ctx.insert_new_node_on_input(node, "Transpose", node.input[0], name=op_name,
+                                                         perm=constants.NHWC_TO_NCHW)
+                ctx.copy_dtype(node.output[0], transpose.output[0])
                 ctx.set_shape(transpose.output[0], np.array(shape)[constants.NHWC_TO_NCHW])
                 ctx.set_shape(output_name, np.array(shape)[constants.NHWC_TO_NCHW])
                 ops.append(transpose)
-- 
2.43.0


From c075d6b43947f6ac55a1af26824b336a81fbec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:07 +0000
Subject: [PATCH 103/103] fix: transposes are only pushed through an operator
 with inputs of unknown rank if the rank of its result is that of the
 transpose

---
 tf2onnx/optimizer/transpose_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f631e79..e7a3548 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -253,8 +253,13 @@ class TransposeOptimizer(GraphOptimizerBase):
         if not self._should_push_transpose(trans, node) or len(node.output) != 1:
             return False
         # broadcasting against an input of a higher rank changes the axes the transpose works on
+        trans_rank = get_transpose_rank(trans)
         input_shapes = [self._g.get_shape(inp) for inp in node.input]
-        if any(shape is not None and len(shape) > get_transpose_rank(trans) for shape in input_shapes):
+        if None in input_shapes:
+            input_shapes.append(self._g.get_shape(node.output[0]))
+            if input_shapes[-1] is None:
+                return False
+        if any(shape is not None and len(shape) > trans_rank for shape in input_shapes):
             return False
         # transposes with other consumers stay. (Pairs created in vain would be folded and created again and again)
         perm = trans.get_attr_value("perm")
-- 
2.43.0

