import json

import allcells
import numpy as np
import onnx
import onnxgen
import prog
from core import Info, Reject, Suite, Violation

PASSES = ["optimize_transpose", "remove_redundant_upsample", "fold_constants", "const_dequantize_optimizer", "loop_optimizer", "merge_duplication",
          "reshape_optimizer", "global_pool_optimizer", "q_dq_optimizer", "remove_identity", "remove_back_to_back", "einsum_optimizer"]


def gen(d):
    spec = onnxgen.gen(d)
    spec["alone"] = d.subset(PASSES, 0, 3)
    return spec


def signature(m):
    return [(v.name, v.type.tensor_type.elem_type) for v in m.graph.input], [(v.name, v.type.tensor_type.elem_type) for v in m.graph.output]


def run_model(m, feeds, what):
    try:
        s = prog.session(m.SerializeToString())
        return s.run(None, feeds)
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: the model does not run: %s" % (what, str(e)[:500]))


def compare(model, opt, feeds, refs, what):
    if signature(opt) != signature(model):
        raise Violation("%s: inputs and outputs are %s, were %s" % (what, signature(opt), signature(model)))
    try:
        onnx.checker.check_model(opt, full_check=True)
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: the result is not a valid model: %s" % (what, str(e)[:500]))
    try:
        got = run_model(opt, feeds, what)
    except Violation as e:
        if "NOT_IMPLEMENTED" in str(e):  # the pushed quantisation asks for kernels which this runtime doesn't have
            return
        raise
    for o, r, g in zip(model.graph.output, refs, got):
        m = prog.diff(r, g)
        if m:
            raise Violation("%s: output %s: %s" % (what, o.name, m))


def run(spec):
    from tf2onnx import optimizer
    from tf2onnx.graph import GraphUtil
    model = onnxgen.build(spec)
    try:
        onnx.checker.check_model(model, full_check=True)
    except Exception as e:  # noqa: BLE001
        raise Reject("not a valid model: %s" % str(e)[-300:])
    feeds = onnxgen.feeds(spec)
    try:
        refs = prog.session(model.SerializeToString()).run(None, feeds)
    except Exception as e:  # noqa: BLE001
        raise Reject("the runtime does not run the model itself: %s" % str(e)[:300])
    if any(r.dtype.kind == "f" and r.size and not np.nanmax(np.abs(r), initial=0) < 1e15 for r in refs):
        raise Reject("the model overflows")
    again = prog.session(model.SerializeToString()).run(None, feeds)
    if any(prog.diff(a, b) for a, b in zip(refs, again)):
        raise Reject("the runtime does not compute the same result twice")
    before = model.SerializeToString()
    ops = sorted({n["op"] for n in onnxgen.walk_nodes(spec["nodes"])})
    what = "optimising %d nodes (%s)" % (len(spec["nodes"]), " ".join(ops))
    n = 1
    opt = GraphUtil.optimize_model_proto(model)
    compare(model, opt, feeds, refs, what)
    twice = GraphUtil.optimize_model_proto(opt)
    compare(model, twice, feeds, refs, what + ", twice")
    allp = optimizer._get_optimizers()
    changed = len(opt.graph.node) != len(model.graph.node)
    for p in spec["alone"]:
        m1 = GraphUtil.optimize_model_proto(model, optimizers={p: allp[p]})
        compare(model, m1, feeds, refs, "%s alone on %s" % (p, what))
        n += 1
    if model.SerializeToString() != before:
        raise Violation("%s: the caller's model was modified" % what)
    return Info(changed, ops + ["opset%d" % spec["opset"]], evals=n + 1)


def describe(spec):
    return {"opset": spec["opset"], "nodes": [n["op"] for n in spec["nodes"]], "outputs": [o["name"] for o in spec["outputs"]], "alone": spec["alone"]}


SUITES = [
    Suite("models", gen, run, quick=4500, describe=describe),
]
