"""All catalogues together, and what the cross-cutting checks (C13, C16, C17, C20, ...) need of them."""
import json
import logging

import numpy as np
import onnx

import cells_image  # noqa: F401
import cells_math  # noqa: F401
import cells_matrix  # noqa: F401
import cells_nn  # noqa: F401
import cells_ragged  # noqa: F401
import cells_tensor  # noqa: F401
import prog
from core import Reject, Violation

GROUPS = ((5, "C01"), (5, "C02"), (4, "C03"), (3, "C04"), (2, "C05"), (2, "C06"))


def draw_any(d, opset, groups=GROUPS, forbid_tags=()):
    have = [(w, g) for w, g in groups if any(g in c.groups and c.minop <= opset for c in prog.CELLS.values())]
    return prog.draw_cell(d, opset, d.weighted(have), forbid_tags=forbid_tags)


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append(record.getMessage().split("\n")[-1][:300])
        except Exception:  # noqa: BLE001
            self.lines.append(str(record.msg)[:300])


class errors_logged:
    """Collects what the converter reports as errors (operators it could not convert)."""

    def __enter__(self):
        self.h = Log()
        self.lg = logging.getLogger("tf2onnx")
        self.old = self.lg.propagate, logging.root.manager.disable
        self.lg.propagate = False
        self.lg.addHandler(self.h)
        logging.disable(logging.WARNING)
        self.level = self.lg.level
        self.lg.setLevel(logging.ERROR)
        return self.h.lines

    def __exit__(self, *a):
        self.lg.removeHandler(self.h)
        self.lg.propagate = self.old[0]
        self.lg.setLevel(self.level)
        logging.disable(self.old[1])


def graphs_of(graph):
    yield graph
    for n in graph.node:
        for a in n.attribute:
            for g in ([a.g] if a.type == onnx.AttributeProto.GRAPH else a.graphs if a.type == onnx.AttributeProto.GRAPHS else []):
                yield from graphs_of(g)


def all_nodes(model):
    for g in graphs_of(model.graph):
        yield from g.node


# ------------------------------------------------------------------ other sizes of the same program

def resized_inputs(ins, sizes):
    """The inputs with other sizes where the descriptor leaves the dimension unknown.  sizes: {old: new} per cell."""
    out = []
    for (ci, k, desc, v) in ins:
        m = {int(a): b for a, b in sizes[ci].items()}
        dyn = desc.get("dyn") or []
        if desc["mode"] == "const" or desc["kind"] == "value" or not m:
            out.append((ci, k, desc, v))
            continue
        only = desc.get("resize")      # the dimensions which may get another size
        shape = [m.get(s, s) if i < len(dyn) and dyn[i] and (only is None or i in only) else s for i, s in enumerate(desc["shape"])]
        if shape == desc["shape"]:
            out.append((ci, k, desc, v))
            continue
        q = dict(desc, shape=shape, seed=desc["seed"] + 1)
        out.append((ci, k, q, prog.make(q)))
    return out


def try_eager(cells, ins):
    try:
        return prog.eager_outputs(cells, ins)
    except Reject:
        return None


def feeds_of(ins, feeds):
    """Feeds of the same model for other inputs."""
    out = dict(feeds)
    for (ci, k, desc, v) in ins:
        name = "x%d_%d" % (ci, k)
        if name in out:
            out[name] = v
            if "s" + name[1:] in out:
                out["s" + name[1:]] = np.array(v.shape, np.int32)
    return out
