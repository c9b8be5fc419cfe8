import json
import os

import allcells
import prog
from core import Info, Reject, Suite, Violation

GROUPS = ((5, "C01"), (5, "C02"), (4, "C03"), (3, "C04"), (2, "C05"), (2, "C06"))
_norank = None


def norank_cells():
    """Cells whose operators convert without known ranks (measured; the others may refuse)."""
    global _norank
    if _norank is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "norank.json")) as f:
            _norank = set(json.load(f))
    return _norank


def negative_step(c):
    return any(v < 0 for x in c["p"]["ins"][1:] for v in (x.get("value") if isinstance(x.get("value"), list) else [])) or c["cell"] == "PySlice"


def draw_cell(d, opset, force_norank=False):
    """A cell with at least one unknown dimension."""
    for _ in range(8):
        c = allcells.draw_any(d, opset, GROUPS)
        ins = [i for i in c["p"]["ins"] if i.get("dynok") and i["mode"] != "const" and i["kind"] != "value" and i["shape"]]
        if not ins:
            continue
        groups = prog.CELLS[c["cell"]].groups
        for i in ins:
            own = i.get("dyn")
            if "C03" in groups or "C04" in groups:
                # these choose themselves which sizes may be unknown; the number of images always may
                i["dyn"] = own = list(own) if own else [False] * len(i["shape"])
                own[0] = own[0] or d.prob(60)
                # other sizes: of the images, of their height and width, not of their channels
                one = len([x for x in c["p"]["ins"] if x["kind"] != "value" and x["mode"] != "const" and len(x["shape"]) > 1]) < 2
                i["resize"] = list(range(max(1, len(i["shape"]) - 1))) if one and "C04" not in groups and not c["p"].get("first") else [0]
            elif not own or (not any(own) and d.prob(70)):
                i["dyn"] = [d.prob(65) for _ in i["shape"]] if d.prob(70) else [True] * len(i["shape"])
            if c["cell"] in ("StridedSlice", "PySlice") and d.avoid("strided-slice-negative-step-begin-below-range", True):
                i["resize"] = [x for x in range(len(i["shape"])) if not negative_step(c)]
        if force_norank or d.prob(30 if c["cell"] in norank_cells() else 10):
            for i in ins:
                if force_norank or d.prob(75):
                    i["norank"] = True
                    i["dyn"] = [True] * len(i["shape"])
        if any(any(i.get("dyn") or []) for i in ins):
            return c
    raise Reject("no cell")


def sizes(d, c):
    """Another size for every unknown one."""
    olds = sorted({s for i in c["p"]["ins"] for s, u in zip(i["shape"], i.get("dyn") or []) if u})
    keep = d.prob(30)
    out = {}
    for s in olds:
        if keep and d.prob(50):
            continue
        if s > 8:
            out[str(s)] = d.int(max(1, s - 4), s + 4)
        else:
            out[str(s)] = d.weighted([(6, d.int(1, 8)), (1, 1), (1, d.int(9, 17))])
    return out


def gen(d):
    opset = d.choice([18, 18, 17, 16, 15, 14, 13])
    cells = [draw_cell(d, opset) for _ in range(d.int(1, 3))]
    return {"opset": opset, "cells": cells, "sizes": [[sizes(d, c) for c in cells] for _ in range(5)], "fixed": d.prob(30)}


def variants(spec, ins, refs):
    """Inputs of other sizes which TensorFlow accepts, with the results."""
    cells = spec["cells"]
    out = []
    for v in spec["sizes"]:
        new = allcells.resized_inputs(ins, v)
        parts, want, changed = [], [], False
        for ci, c in enumerate(cells):
            mine = [x for x in new if x[0] == ci]
            old = [x for x in ins if x[0] == ci]
            if all(a is b for a, b in zip(mine, old)):
                parts += old
                want.append(refs[ci])
                continue
            # (products of so many numbers overflow on the way or not, depending on the order)
            huge = "Prod" in c["cell"] and any(x[3].size > 500 for x in mine)
            r = None if huge else allcells.try_eager([c], [(0,) + x[1:] for x in mine])
            if r is None or any(x.size == 0 for x in r[0]) and "C03" in prog.CELLS[c["cell"]].groups:
                parts += old
                want.append(refs[ci])
            else:
                parts += mine
                want.append(r[0])
                changed = True
        if changed:
            out.append((parts, want))
        if len(out) == 3:
            break
    return out


def run(spec):
    cells, opset = spec["cells"], spec["opset"]
    ins = prog.cell_inputs(cells)
    refs = prog.eager_outputs(cells, ins)
    fn, specs, feeds = prog.make_fn(cells, ins)
    what = "%s at opset %d with unknown dimensions" % (prog.what_of(cells), opset)
    may_refuse = any(i.get("norank") for c in cells if c["cell"] not in norank_cells() for i in c["p"]["ins"])
    with allcells.errors_logged() as errors:
        try:
            model = prog.convert(fn, specs, opset)
        except Exception as e:  # noqa: BLE001
            if may_refuse:
                return Info(False, ["unknown-rank-refused"])
            raise Violation("%s: refused: %s: %s" % (what, type(e).__name__, str(e)[:400]))
    if errors:
        if may_refuse:
            return Info(False, ["unknown-rank-refused"])
        raise Violation("%s: refused: %s" % (what, errors[0]))
    names = {i.name for i in model.graph.input}
    s = prog.session(model.SerializeToString())
    runs = [(ins, refs)] + variants(spec, ins, refs)
    classes = {c["cell"] for c in cells}
    for k, (inputs, want) in enumerate(runs):
        f = allcells.feeds_of(inputs, feeds)
        w = "%s, size %d %s" % (what, k, [list(v.shape) for (_, _, _, v) in inputs][:8])
        try:
            got = s.run(None, {n: v for n, v in f.items() if n in names})
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: the model does not run: %s" % (w, str(e)[:500]))
        prog.compare_cells(cells, want, got, w)
    evals = len(runs)
    if spec["fixed"]:
        inputs, want = runs[-1]
        plain = [(ci, k, {a: b for a, b in desc.items() if a not in ("dyn", "norank")}, v) for (ci, k, desc, v) in inputs]
        fn2, specs2, feeds2 = prog.make_fn(cells, plain)
        w = "%s at opset %d with sizes %s" % (prog.what_of(cells), opset, [list(v.shape) for (_, _, _, v) in inputs][:8])
        m2 = prog.convert_checked(fn2, specs2, opset, w)
        prog.compare_cells(cells, want, prog.run_checked(m2, feeds_in(m2, feeds2), w), w)
        evals += 1
        classes.add("fixed")
    if any(i.get("norank") for c in cells for i in c["p"]["ins"]):
        classes.add("unknown-rank")
    classes.add("%d-sizes" % len(runs))
    return Info(len(runs) > 1, sorted(classes), evals=evals)


def feeds_in(model, feeds):
    names = {i.name for i in model.graph.input}
    return {k: v for k, v in feeds.items() if k in names}


SUITES = [Suite("sizes", gen, run, quick=700, describe=prog.describe)]
