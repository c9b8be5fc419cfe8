import allcells
import disguise
import numpy as np
import prog
import tensorflow as tf
from core import Info, Reject, Suite, Violation

GROUPS = ((5, "C01"), (5, "C02"), (4, "C03"), (3, "C04"), (2, "C05"), (2, "C06"))


def gen(d):
    opset = d.choice([18, 18, 17, 16, 15, 14, 13])
    cells = [allcells.draw_any(d, opset, GROUPS) for _ in range(d.int(1, 3))]
    n = sum(len(c["p"]["ins"]) for c in cells)
    masks = [[d.bool() for _ in range(n)] for _ in range(2)] + [[True] * n, [False] * n]
    return {"opset": opset, "cells": cells, "masks": masks}


def as_const(ins, mask):
    out = []
    for (ci, k, desc, v), m in zip(ins, mask):
        if desc["const"] != "always":
            desc = dict(desc, mode="const" if m else "in")
            if m:
                desc.pop("dyn", None)
        out.append((ci, k, desc, v))
    return out


def run(spec):
    cells, opset = spec["cells"], spec["opset"]
    ins = prog.cell_inputs(cells)
    refs = prog.eager_outputs(cells, ins)
    seen = set()
    for mask in spec["masks"]:
        mine = as_const(ins, mask)
        key = tuple(x[2]["mode"] for x in mine)
        if key in seen:
            continue
        seen.add(key)
        what = "%s with operands %s" % (prog.what_of(cells), "".join("c" if x == "const" else "i" for x in key))
        fn, specs, feeds = prog.make_fn(cells, mine)
        with allcells.errors_logged() as errors:
            model = prog.convert_checked(fn, specs, opset, what)
        if errors:
            raise Violation("%s at opset %d: refused: %s" % (what, opset, errors[0]))
        prog.compare_cells(cells, refs, prog.run_checked(model, feeds, what), "opset %d, operands %s" % (opset, "".join(x[0] for x in key)))
    return Info(len(seen) > 1, [c["cell"] for c in cells] + ["%d-assignments" % len(seen)], evals=len(seen))


# ------------------------------------------------------------------ computed constants

def gen_computed(d):
    opset = d.choice([18, 18, 17, 15, 13])
    cells = [allcells.draw_any(d, opset, GROUPS) for _ in range(d.int(1, 2))]
    how = []
    for c in cells:
        for desc in c["p"]["ins"]:
            v = prog.make(desc)
            if not d.prob(85):
                how.append(None)
            else:
                kinds = disguise.kinds_for(v, desc["dtype"])
                if desc["const"] == "always":       # only folded by TensorFlow
                    kinds = [k for k in kinds if k != "split"]
                how.append(d.choice(kinds))
    return {"opset": opset, "cells": cells, "how": how, "tf_optimize": d.prob(40)}


def unoptimized(cf, opset):
    """As the documented tf2onnx.tfonnx.process_tf_graph is used on a graph TensorFlow has not optimised."""
    from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_v2
    from tf2onnx import optimizer
    from tf2onnx.tfonnx import process_tf_graph
    outs = ["out%d" % i for i in range(len(cf.outputs))]
    gd = convert_variables_to_constants_v2(cf, lower_control_flow=False).graph.as_graph_def()
    names = [t.name for t in cf.inputs]
    with tf.Graph().as_default() as g:
        tf.import_graph_def(gd, name="")
        for t, n in zip(cf.outputs, outs):
            tf.identity(g.get_tensor_by_name(t.name), name=n)
        ren = {n: n.split(":")[0] for n in names}
        ren.update({n + ":0": n for n in outs})
        og = process_tf_graph(g, opset=opset, input_names=names, output_names=[n + ":0" for n in outs], tensors_to_rename=ren)
    return optimizer.optimize_graph(og).make_model("verif")


def run_computed(spec):
    cells, opset = spec["cells"], spec["opset"]
    ins = prog.cell_inputs(cells)
    refs = prog.eager_outputs(cells, ins)
    how = {(x[0], x[1]): h for x, h in zip(ins, spec["how"])}
    mine = []
    for (ci, k, desc, v) in ins:
        h = how[(ci, k)]
        if h:
            desc = {a: b for a, b in dict(desc, mode="const").items() if a != "dyn"}
        mine.append((ci, k, desc, v))
    extras = []
    # TensorFlow itself: do the expressions have these values?
    for (ci, k, desc, v) in mine:
        h = how[(ci, k)]
        if h:
            try:
                got = disguise.build(h, v, desc["dtype"], lambda shape: (extras.append(shape), tf.zeros(shape))[1])
            except (tf.errors.OpError, ValueError, TypeError) as e:
                raise Reject("TensorFlow cannot compute %s: %s" % (h, str(e)[:100]))
            if prog.diff(v, got.numpy()):
                raise Reject("%s does not give the value" % h)
    specs, feeds, where = [], {}, []
    for (ci, k, desc, v) in mine:
        if desc["mode"] != "const":
            specs.append(prog.spec_of(desc, "x%d_%d" % (ci, k)))
            feeds["x%d_%d" % (ci, k)] = v
            where.append((ci, k))
    base = len(specs)
    for i, shape in enumerate(extras):
        specs.append(tf.TensorSpec(shape, tf.float32, name="e%d" % i))
        feeds["e%d" % i] = np.zeros(shape, np.float32)
    specs.append(tf.TensorSpec([1], tf.float32, name="dummy"))
    feeds["dummy"] = np.zeros([1], np.float32)

    def fn(*args):
        table = dict(zip(where, args))
        free = list(args[base:-1])
        res = []
        for ci, c in enumerate(cells):
            ts = []
            for (i, k, desc, v) in mine:
                if i != ci:
                    continue
                h = how[(ci, k)]
                if h:
                    ts.append(disguise.build(h, v, desc["dtype"], lambda shape: free.pop(0)))
                elif desc["mode"] == "const":
                    ts.append(prog.to_tensor(v, desc["dtype"]))
                else:
                    ts.append(table[(ci, k)])
            for x in prog.flat(prog.CELLS[c["cell"]].build(c["p"], *ts)):
                res.append(tf.identity(x))
        res.append(args[-1] + 1.0)
        return res
    hows = sorted({h for h in spec["how"] if h})
    what = "%s with computed constants %s%s" % (prog.what_of(cells), ",".join(str(h) for h in spec["how"]),
                                               "" if spec["tf_optimize"] else " (not optimised by TensorFlow)")
    tfn = tf.function(fn, autograph=False)
    try:
        cf = tfn.get_concrete_function(*specs)
    except (tf.errors.OpError, ValueError, TypeError) as e:
        raise Reject("TensorFlow needs a literal constant: %s" % str(e)[:100])
    with allcells.errors_logged() as errors:
        try:
            if spec["tf_optimize"]:
                model = prog.convert(tfn, specs, opset)
            else:
                model = unoptimized(cf, opset)
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: refused at opset %d: %s: %s" % (what, opset, type(e).__name__, str(e)[:400]))
    if errors:
        raise Violation("%s at opset %d: refused: %s" % (what, opset, errors[0]))
    prog.compare_cells(cells, refs, prog.run_checked(model, feeds, what), what + " opset %d" % opset)
    return Info(bool(hows), hows + [c["cell"] for c in cells] + ["tf-optimised" if spec["tf_optimize"] else "unoptimised"])


SUITES = [
    Suite("operands", gen, run, quick=200, describe=prog.describe),
    Suite("computed", gen_computed, run_computed, quick=250, describe=prog.describe),
]
