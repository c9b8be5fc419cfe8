"""What makes a produced model valid (C13), decided with the ONNX checker and the operator schemas."""
import numpy as np
import onnx
from onnx import helper

import allcells
from core import Violation

# first ONNX release of each default-domain opset gives the format version the opset belongs to
IR_OF_OPSET = {9: 4, 10: 5, 11: 6, 12: 7, 13: 7, 14: 7, 15: 8, 16: 8, 17: 8, 18: 8}
KNOWN_DOMAINS = {"", "ai.onnx.ml", "com.microsoft", "ai.onnx.contrib", "ai.onnx.converters.tensorflow", "ai.onnx.training"}


def check(model, opset, what, extra_domains=(), unknown_rank_outputs=False):
    """Raises Violation unless the model is valid, declares `opset` and contains only operators defined there."""
    imports = {}
    for o in model.opset_import:
        dom = "" if o.domain == "ai.onnx" else o.domain
        if dom in imports and imports[dom] != o.version:
            raise Violation("%s: domain %r is imported in two versions" % (what, dom))
        imports[dom] = o.version
    if imports.get("") != opset:
        raise Violation("%s: opset %s was requested, the model declares %s" % (what, opset, imports.get("")))
    need = IR_OF_OPSET[opset]
    if not need <= model.ir_version <= max(need, onnx.IR_VERSION):
        raise Violation("%s: format version %d does not go with opset %d (its own is %d)" % (what, model.ir_version, opset, need))
    if not model.producer_name:
        raise Violation("%s: no producer name" % what)
    for n in allcells.all_nodes(model):
        dom = "" if n.domain == "ai.onnx" else n.domain
        if dom not in imports:
            raise Violation("%s: operator %s is of domain %r, which the model does not import (imports: %s)" % (what, n.op_type, dom, imports))
        if dom in ("", "ai.onnx.ml"):
            try:
                s = onnx.defs.get_schema(n.op_type, imports[dom], dom)
            except onnx.defs.SchemaError:
                raise Violation("%s: operator %s is not defined in version %d of %r" % (what, n.op_type, imports[dom], dom or "ai.onnx"))
            if s.deprecated:
                raise Violation("%s: operator %s is deprecated in version %d" % (what, n.op_type, imports[dom]))
    m = model
    if unknown_rank_outputs:
        # the format has no way to declare an output of unknown rank; the checker wants a shape on it
        m = onnx.ModelProto()
        m.CopyFrom(model)
        for o in list(m.graph.output):
            if not o.type.tensor_type.HasField("shape"):
                return check_without_outputs(m, what)
    try:
        onnx.checker.check_model(m, full_check=True)
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: the ONNX checker rejects the model: %s" % (what, str(e)[:700]))


def check_without_outputs(m, what):
    for o in list(m.graph.output):
        if not o.type.tensor_type.HasField("shape"):
            m.graph.output.remove(o)
    try:
        if len(m.graph.output):
            onnx.checker.check_model(m, full_check=True)
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: the ONNX checker rejects the model: %s" % (what, str(e)[:700]))


def without_channels_last(model):
    """The model with each ChannelsLastX of the nhwc target spelled out as Transpose, X, Transpose."""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    shapes = {v.name: len(v.type.tensor_type.shape.dim) for v in list(m.graph.value_info) + list(m.graph.input) + list(m.graph.output)
              if v.type.tensor_type.HasField("shape")}
    count = 0
    imports = {o.domain: o.version for o in model.opset_import}
    for g in allcells.graphs_of(m.graph):
        new = []
        for n in g.node:
            if n.domain and n.op_type.startswith("ChannelsLast"):
                count += 1
                rank = shapes.get(n.input[0]) or shapes.get(n.output[0])
                for t in g.initializer:
                    if t.name == n.input[0]:
                        rank = len(t.dims)
                if rank is None:
                    rank = rank_by_weight(g, n)
                inner_in, inner_out = "cl_in_%d" % count, "cl_out_%d" % count
                new.append(helper.make_node("Transpose", [n.input[0]], [inner_in], perm=[0, rank - 1] + list(range(1, rank - 1))))
                c = onnx.NodeProto()
                c.CopyFrom(n)
                c.domain, c.op_type = "", n.op_type[len("ChannelsLast"):]
                c.input[0], c.output[0] = inner_in, inner_out
                known = onnx.defs.get_schema(c.op_type, imports.get("", 1), "").attributes
                for a in [a for a in c.attribute if a.name not in known]:     # what is left of TensorFlow's attributes
                    c.attribute.remove(a)
                new.append(c)
                new.append(helper.make_node("Transpose", [inner_out], [n.output[0]], perm=[0] + list(range(2, rank)) + [1]))
            else:
                new.append(n)
        copies = [onnx.NodeProto.FromString(x.SerializeToString()) for x in new]
        del g.node[:]
        g.node.extend(copies)
    del m.graph.value_info[:]
    return m, count


def rank_by_weight(g, n):
    for a in n.attribute:
        if a.name in ("kernel_shape", "strides"):
            return len(a.ints) + 2
    return 4
