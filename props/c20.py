import allcells
import flow
import numpy as np
import probe
import prog
import c16
import valid
from core import Info, Reject, Suite, Violation


def check_model(model, feeds_list, what, strict_types=None):
    """Runs an instrumented copy of the model; every declared shape and type is true."""
    m, _ = valid.without_channels_last(model)
    del m.graph.value_info[:]
    m.graph.value_info.extend(model.graph.value_info)
    pr = probe.Prober(m)
    m = pr.instrument()
    try:
        s = prog.session(m.SerializeToString())
    except Exception as e:  # noqa: BLE001
        if "NOT_IMPLEMENTED" in str(e) or "is not a registered function/op" in str(e):
            raise Reject("no kernel: %s" % str(e)[:200])
        raise Violation("%s: the model does not load with its declared types: %s" % (what, str(e)[:500]))
    names = {i.name for i in s.get_inputs()}
    outs = [o.name for o in s.get_outputs()]
    n = 0
    for feeds in feeds_list:
        try:
            vals = s.run(None, {k: v for k, v in feeds.items() if k in names})
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: the model does not run: %s" % (what, str(e)[:500]))
        bad, c = pr.problems(dict(zip(outs, vals)))
        n += c
        if bad:
            raise Violation("%s: %s" % (what, "; ".join(bad[:3])))
        for o, v in zip(m.graph.output, vals):
            d = probe.declared(o)
            if d and isinstance(v, np.ndarray) and v.dtype.kind not in "OSU" and v.dtype != onnx_np(d[0]):
                raise Violation("%s: output %s is declared %s and is %s" % (what, o.name, onnx_np(d[0]), v.dtype))
    return n, len(pr.found)


def onnx_np(elem):
    import onnx
    return onnx.helper.tensor_dtype_to_np_dtype(elem)


def gen(d):
    spec = c16.gen(d)
    spec["full"] = d.prob(70)
    return spec


def gen_flow(d, v1=False):
    spec = flow.gen(d, v1=v1)
    spec["full"] = d.prob(70)
    return spec


def run_flow(spec):
    def hook(model, feeds, what):
        n, k = check_model(model, feeds, what)
        return Info(n > 0, spec["used"] + ["v1" if spec["v1"] else "v2"], evals=n)
    if spec["full"]:
        with probe.full_value_info():
            return flow.run(spec, hook)
    return flow.run(spec, hook)


def run(spec):
    cells, opset = spec["cells"], spec["opset"]
    ins = prog.cell_inputs(cells)
    refs = prog.eager_outputs(cells, ins)
    fn, specs, feeds = prog.make_fn(cells, ins)
    what = "%s at opset %d" % (prog.what_of(cells), opset)
    with allcells.errors_logged() as errors:
        try:
            if spec["full"]:
                with probe.full_value_info():
                    model = prog.convert(fn, specs, opset)
            else:
                model = prog.convert(fn, specs, opset)
        except Exception as e:  # noqa: BLE001
            raise Reject("refused (C01 to C16): %s" % str(e)[:100])
    if errors:
        raise Reject("refused (C16)")
    runs = [ins] + [x for x, _ in c16.variants(spec, ins, refs)]
    n, k = check_model(model, [allcells.feeds_of(i, feeds) for i in runs], what)
    sig = {s.name: s.shape.as_list() for s in specs}
    for i in model.graph.input:
        d = probe.declared(i)
        if d[1] is not None and [None if x == -1 else x for x in d[1]] != sig[i.name.split(":")[0]]:
            raise Violation("%s: input %s is declared with shape %s, is %s in the program" % (what, i.name, d[1], sig[i.name.split(":")[0]]))
    return Info(n > 0, sorted({c["cell"] for c in cells}) + ["%d-sizes" % len(runs)], evals=n)


SUITES = [
    Suite("declared", gen, run, quick=900, describe=prog.describe),
    Suite("control-flow", gen_flow, run_flow, quick=200, describe=flow.describe),
    Suite("control-flow-v1", lambda d: gen_flow(d, True), run_flow, quick=60, describe=flow.describe),
]
