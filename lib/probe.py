"""Adds to a model what reports the shapes of its tensors, inside control flow too, and compares them with what it declares."""
import numpy as np
import onnx
from onnx import TensorProto, helper

MAXR = 8
WIDTH = MAXR + 1
BIG = 1 << 40


class full_value_info:
    """While active, converted models also declare what the converter recorded for all other intermediate tensors."""

    def __enter__(self):
        from tf2onnx import utils
        from tf2onnx.graph import Graph
        self.cls, self.orig = Graph, Graph.make_graph
        orig = self.orig

        def make_graph(g, *a, **kw):
            proto = orig(g, *a, **kw)
            have = {v.name for v in proto.value_info} | {v.name for v in proto.output} | {v.name for v in proto.input} | \
                   {t.name for t in proto.initializer}
            for n in proto.node:
                for out in n.output:
                    if out and out not in have:
                        have.add(out)
                        dt, sh = g.get_dtype(out), g.get_shape(out)
                        if dt:
                            proto.value_info.append(utils.make_onnx_inputs_outputs(out, dt, sh))
            return proto
        Graph.make_graph = make_graph
        return self

    def __exit__(self, *a):
        self.cls.make_graph = self.orig


def declared(v):
    """(element type, [dim or None] or None) of a ValueInfo, None when it is not a tensor."""
    if v.type.WhichOneof("value") != "tensor_type":
        return None
    t = v.type.tensor_type
    if not t.HasField("shape"):
        return t.elem_type, None
    return t.elem_type, [d.dim_value if d.HasField("dim_value") else None for d in t.shape.dim]


class Prober:
    def __init__(self, model):
        self.m = onnx.ModelProto.FromString(model.SerializeToString())
        self.opset = max(o.version for o in self.m.opset_import if o.domain == "")
        self.count = 0
        self.found = {}     # probe name -> (where, tensor, dtype, shape)
        self.skipped = 0

    def name(self, s="p"):
        self.count += 1
        return "verif_%s_%d" % (s, self.count)

    def const(self, nodes, a):
        n = self.name("c")
        nodes.append(helper.make_node("Constant", [], [n], value=onnx.numpy_helper.from_array(np.asarray(a, np.int64), n)))
        return n

    def shape_of(self, nodes, tensor):
        """[rank, dims..., padding] of a tensor, computed in the graph."""
        s, f, k, out = self.name(), self.name(), self.name(), self.name()
        nodes.append(helper.make_node("Shape", [tensor], [s]))
        nodes.append(helper.make_node("Shape", [s], [k]))
        pad = self.const(nodes, [-7] * WIDTH)
        nodes.append(helper.make_node("Concat", [k, s, pad], [f], axis=0))
        nodes.append(helper.make_node("Slice", [f, self.const(nodes, [0]), self.const(nodes, [WIDTH]), self.const(nodes, [0])], [out]))
        return out

    def reduce(self, nodes, op, stacked, neutral):
        """Over the iterations of a loop; the neutral row for loops without any."""
        full, out = self.name(), self.name()
        nodes.append(helper.make_node("Concat", [stacked, self.const(nodes, [[neutral] * WIDTH])], [full], axis=0))
        if self.opset >= 18:
            nodes.append(helper.make_node(op, [full, self.const(nodes, [0])], [out], keepdims=0))
        else:
            nodes.append(helper.make_node(op, [full], [out], axes=[0], keepdims=0))
        return out

    def graph(self, g, where, top=False):
        """Adds the probes of one graph; returns [(min, max, key)]: names computed in it."""
        probes, nodes = [], []
        infos = list(g.value_info) + list(g.output) + list(g.input)
        made = {o for n in g.node for o in n.output} | {i.name for i in g.input}
        for n in g.node:
            extra = []
            subs = [a for a in n.attribute if a.type == onnx.AttributeProto.GRAPH]
            if n.op_type == "If":
                per = []
                for a in subs:
                    per.append((a.g, self.graph(a.g, where + "/%s.%s" % (n.name, a.name))))
                for body, mine in per:
                    for (lo, hi, key) in mine:
                        for v, neutral in ((lo, BIG), (hi, -BIG)):
                            out = self.name()
                            for other, _ in per:
                                if other is body:
                                    w = v
                                else:
                                    tmp = []
                                    w = self.const(tmp, [neutral] * WIDTH)
                                    other.node.extend(tmp)
                                ident = self.name()
                                other.node.append(helper.make_node("Identity", [w], [ident]))
                                other.output.append(helper.make_tensor_value_info(ident, TensorProto.INT64, [WIDTH]))
                            n.output.append(out)
                            extra.append(out)
                        probes.append((extra[-2], extra[-1], key))
                nodes.append(n)
            elif n.op_type in ("Loop", "Scan") and subs:
                body = subs[0].g
                mine = self.graph(body, where + "/" + n.name)
                after = []
                for (lo, hi, key) in mine:
                    pair = []
                    for v, op, neutral in ((lo, "ReduceMin", BIG), (hi, "ReduceMax", -BIG)):
                        ident, out = self.name(), self.name()
                        body.node.append(helper.make_node("Identity", [v], [ident]))
                        body.output.append(helper.make_tensor_value_info(ident, TensorProto.INT64, [WIDTH]))
                        n.output.append(out)
                        pair.append(self.reduce(after, op, out, neutral))
                    probes.append((pair[0], pair[1], key))
                nodes.append(n)
                nodes += after
            else:
                nodes.append(n)
        tail = []
        for v in infos:
            d = declared(v)
            if d is None or v.name not in made or v.name.startswith("verif_"):
                self.skipped += 1
                continue
            if d[1] is None or d[0] == TensorProto.STRING and False:
                continue
            if not any(x is not None for x in d[1]) and not len(d[1]):
                pass
            key = len(self.found)
            self.found[key] = (where or "graph", v.name, d[0], d[1])
            p = self.shape_of(tail, v.name)
            probes.append((p, p, key))
        copies = [onnx.NodeProto.FromString(x.SerializeToString()) for x in nodes + tail]
        del g.node[:]
        g.node.extend(copies)
        return probes

    def instrument(self):
        probes = self.graph(self.m.graph, "", True)
        self.outs = []
        for lo, hi, key in probes:
            self.outs.append((lo, hi, key))
        added = set()
        for lo, hi, key in self.outs:
            for x in (lo, hi):
                if x not in added:
                    added.add(x)
                    self.m.graph.output.append(helper.make_tensor_value_info(x, TensorProto.INT64, [WIDTH]))
        return self.m

    def problems(self, values):
        """What the declared shapes say wrongly; values: probe name -> array."""
        out, checked = [], 0
        for lo, hi, key in self.outs:
            where, tensor, dt, shape = self.found[key]
            a, b = values[lo].tolist(), values[hi].tolist()
            if a[0] == BIG:
                continue        # never computed
            checked += 1
            if a[0] != len(shape) or b[0] != len(shape):
                out.append("%s: %s is declared with %d dimensions %s and has %s, shape %s" % (where, tensor, len(shape), shape, a[0], b[1:1 + b[0]]))
                continue
            for i, s in enumerate(shape):
                if s is not None and (a[1 + i] != s or b[1 + i] != s):
                    out.append("%s: %s is declared with shape %s and has shape %s" % (where, tensor, shape, (a if a[1 + i] != s else b)[1:1 + a[0]]))
                    break
        return out, checked
