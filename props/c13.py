import allcells
import onnx
import prog
import valid
from core import Info, Reject, Suite, Violation

TARGETS = [None, None, ["rs4"], ["rs5"], ["rs6"], ["caffe2"], ["tensorrt"], ["nhwc"], ["rs5", "rs6"], ["tensorrt", "nhwc"]]


def nearest_half(c):
    """A resize by the nearest pixel with half_pixel_centers."""
    p = c["p"]
    return (p.get("op") == "ResizeNearestNeighbor" and p.get("mode") == "half") or p.get("m") == "nearest"


def int_max(c):
    """The conversion computes with the largest int, which float32 does not hold."""
    p = c["p"]
    if c["cell"] == "Slice":
        return -1 in p["ins"][2]["value"] and "in" in (p["ins"][1]["mode"], p["ins"][2]["mode"])
    if c["cell"] == "TopK":
        return bool(p["ins"][0].get("off"))
    return c["cell"] == "Segment" and "int" in p["ins"][0]["dtype"] and p["op"] in ("Min", "Max")


def dynamic_transpose(c):
    return c["cell"].startswith("ConvTranspose") and c["p"]["ins"][2]["mode"] == "in"


def gen(d):
    old = d.prob(35)
    opset = d.int(9, 12) if old else d.int(13, 18)
    cells = [allcells.draw_any(d, opset) for _ in range(d.int(1, 3))]
    lo = max([prog.CELLS[c["cell"]].minop for c in cells] + [9])
    other = d.int(min(lo, 18), 18)
    if d.avoid("conv-transpose-dynamic-shape-below-opset-12", min(opset, other) < 12 and any(dynamic_transpose(c) for c in cells)):
        opset, other = max(opset, 12), max(other, 12)
    target = d.choice(TARGETS)
    if d.avoid("tensorrt-nearest-half-pixel", "tensorrt" in (target or []) and any(nearest_half(c) for c in cells)):
        target = [t for t in target if t != "tensorrt"] or None
    if d.avoid("winml-ints-through-float", {"rs5", "rs6"} & set(target or []) and any(int_max(c) for c in cells)):
        target = None
    return {"opset": opset, "opset2": other, "target": target, "cells": cells,
            "extra": d.prob(15)}


def convert(fn, specs, opset, target, extra):
    kw = {}
    if target:
        kw["target"] = list(target)
    if extra:
        kw["extra_opset"] = [onnx.helper.make_opsetid("ai.onnx.contrib", 1)]
    with allcells.errors_logged() as errors:
        try:
            return prog.convert(fn, specs, opset, **kw), errors
        except Exception as e:  # noqa: BLE001
            return None, errors + ["%s: %s" % (type(e).__name__, str(e)[:400])]


def run(spec):
    cells = spec["cells"]
    ins = prog.cell_inputs(cells)
    refs = prog.eager_outputs(cells, ins)
    classes = set()
    evals = 0
    for opset, target, extra in ((spec["opset"], None, False), (spec["opset2"], spec["target"], spec["extra"])):
        fn, specs, feeds = prog.make_fn(cells, ins)
        what = "%s at opset %d%s" % (prog.what_of(cells), opset, " for target %s" % target if target else "")
        model, errors = convert(fn, specs, opset, target, extra)
        if model is None or errors:
            if opset >= 13 and not target:
                raise Violation("%s: refused: %s" % (what, (errors or ["?"])[0]))
            classes.add("refused-opset%d" % opset)
            continue
        if extra:
            if not any(o.domain == "ai.onnx.contrib" for o in model.opset_import):
                raise Violation("%s: the extra opset is not declared" % what)
        valid.check(model, opset, what, unknown_rank_outputs=True)
        m2, last = valid.without_channels_last(model)
        if last:
            if not target or "nhwc" not in target:
                raise Violation("%s: channels-last operators without the nhwc target" % what)
            classes.add("channels-last-ops")
        try:
            got = prog.run_onnx(m2 if last else model, feeds_in(model, feeds))
        except Exception as e:  # noqa: BLE001
            if "InsertedPrecisionFreeCast" in str(e) or "NOT_IMPLEMENTED" in str(e) or "Could not find an implementation" in str(e):
                classes.add("no-kernel")
                continue
            raise Violation("%s: the model does not run: %s" % (what, str(e)[:600]))
        prog.compare_cells(cells, refs, got, what)
        evals += 1
        classes.add("opset%d" % opset)
        classes.add("target-%s" % (",".join(target) if target else "default"))
    for c in cells:
        classes.add(c["cell"])
    return Info(evals > 0, sorted(classes), evals=evals)


def feeds_in(model, feeds):
    names = {i.name for i in model.graph.input}
    return {k: v for k, v in feeds.items() if k in names}


SUITES = [Suite("opsets-targets", gen, run, quick=700, describe=prog.describe)]
