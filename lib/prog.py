"""Programs made of operator cells: input descriptors, conversion, execution and comparison."""
import logging
import os
import warnings

warnings.filterwarnings("ignore")
import numpy as np

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
import tensorflow as tf  # noqa: E402

tf.get_logger().setLevel(logging.CRITICAL)
logging.getLogger("tensorflow").setLevel(logging.CRITICAL)
try:
    import absl.logging
    absl.logging.set_verbosity(absl.logging.FATAL)
except ImportError:
    pass
import onnx  # noqa: E402
import onnxruntime as ort  # noqa: E402
import tf2onnx  # noqa: E402

logging.getLogger("tf2onnx").setLevel(logging.CRITICAL)
logging.disable(logging.CRITICAL)
ort.set_default_logger_severity(4)

from core import Info, Reject, Violation  # noqa: E402

assert tf2onnx.__file__.startswith(os.environ.get("VERIF_REPO", "/repo") + "/"), tf2onnx.__file__

F32, F64, F16, I32, I64, I8, U8, I16, U16, U32, U64, BOOL, STR = (
    "float32", "float64", "float16", "int32", "int64", "int8", "uint8", "int16", "uint16", "uint32", "uint64", "bool", "string")
FLOATS = (F32, F64, F16)


def is_float(dt):
    return dt in FLOATS


# ------------------------------------------------------------------ inputs

def t(d, shape, dtype=F32, kind=None, const="maybe", dyn="maybe", **kw):
    """Draws an input descriptor.  const: never | maybe | always;  dyn: never | maybe (dims may be unknown)."""
    desc = {"shape": list(shape), "dtype": dtype, "kind": kind or default_kind(d, dtype), "seed": d.seed(), "mode": "in"}
    desc.update(kw)
    if const == "always":
        desc["mode"] = "const"
    elif const == "maybe" and d.prob(15):
        desc["mode"] = "const"
    desc["const"] = const
    if dyn == "maybe" and desc["mode"] == "in" and len(shape) and d.prob(18):
        desc["dyn"] = [d.bool() for _ in shape]
    desc["dynok"] = dyn == "maybe"
    return desc


def val(value, dtype, const="maybe", dyn="maybe", d=None):
    """An input with a literal value."""
    a = np.array(value, dtype=dtype if dtype != STR else object)
    desc = {"shape": list(a.shape), "dtype": dtype, "kind": "value", "value": a.tolist(), "mode": "in", "const": const,
            "dynok": dyn == "maybe"}
    if const == "always" or (const == "maybe" and d is not None and d.prob(60)):
        desc["mode"] = "const"
    elif dyn == "maybe" and d is not None and a.ndim and d.prob(18):
        desc["dyn"] = [d.bool() for _ in a.shape]
    return desc


def default_kind(d, dtype):
    if is_float(dtype):
        return d.choice(["normal", "small", "half"])
    if dtype == BOOL:
        return "bool"
    return "int"


def make(desc):
    """The numpy value of an input descriptor."""
    shape, dtype, kind = tuple(desc["shape"]), desc["dtype"], desc["kind"]
    if kind == "value":
        if dtype == STR:
            return np.array(desc["value"], dtype=object).reshape(shape)
        return np.array(desc["value"], dtype=dtype).reshape(shape)
    r = np.random.RandomState(desc["seed"])
    n = int(np.prod(shape)) if shape else 1
    lo, hi = desc.get("lo"), desc.get("hi")
    if kind == "bool":
        a = r.randint(0, 2, size=n).astype(bool)
    elif kind == "small":
        a = r.randint(-4, 5, size=n)
        if dtype.startswith("u"):
            a = np.abs(a)
    elif kind == "half":
        a = r.randint(-12, 13, size=n) * 0.5
    elif kind == "normal":
        a = r.randn(n)
    elif kind == "pos":
        a = r.uniform(0.1, 3.0, size=n)
    elif kind == "unit":
        a = r.uniform(-0.98, 0.98, size=n)
    elif kind == "unit01":
        a = r.uniform(0.0, 1.0, size=n)
    elif kind == "grey":        # many equal values
        a = r.randint(0, 4, size=n) * 0.25
    elif kind == "big":
        a = r.randn(n) * 20
    elif kind == "uniform":
        a = r.uniform(lo, hi, size=n)
    elif kind == "int":
        if lo is None:
            lo, hi = (0, 9) if dtype.startswith("u") else (-9, 9)
        a = r.randint(lo, hi + 1, size=n)
    elif kind == "wide":
        ii = np.iinfo(dtype)
        a = r.randint(max(ii.min, -2**31), min(ii.max, 2**31 - 1) + 1, size=n, dtype=np.int64)
        edge = r.randint(0, 6, size=n)
        a = np.where(edge == 0, max(ii.min, -2**31), np.where(edge == 1, min(ii.max, 2**31 - 1), a))
    elif kind == "distinct":
        a = r.permutation(n) - n // 2
        if dtype.startswith("u"):
            a = r.permutation(n)
        a = a + desc.get("off", 0)
        if is_float(dtype):
            a = a * 0.75
    elif kind == "nonzero":
        a = r.randint(1, 8, size=n)
        if not dtype.startswith("u"):
            a = a * r.choice([-1, 1], size=n)
        if is_float(dtype):
            a = a * 0.5
    elif kind == "special":
        pool = np.array([0.0, -0.0, 1.0, -1.5, np.inf, -np.inf, np.nan, 2.5, 1e30, -1e-30])
        a = pool[r.randint(0, len(pool), size=n)]
    elif kind == "strings":
        pool = desc["pool"]
        return np.array([pool[i] for i in r.randint(0, len(pool), size=n)], dtype=object).reshape(shape)
    else:
        raise AssertionError(kind)
    return np.asarray(a).astype(dtype).reshape(shape)


def tf_dtype(dt):
    return tf.as_dtype(dt)


def spec_of(desc, name, all_unknown=False):
    dyn = desc.get("dyn")
    shape = [None if dyn and i < len(dyn) and dyn[i] else s for i, s in enumerate(desc["shape"])]
    return tf.TensorSpec(shape, tf_dtype(desc["dtype"]), name=name)


# ------------------------------------------------------------------ running

def session(model_bytes, optimize=False, extensions=False):
    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.log_severity_level = 4
    so.enable_mem_reuse = False     # ORT 1.17 reuses the buffer of a value that an If or Loop captures and also reads
    so.graph_optimization_level = (ort.GraphOptimizationLevel.ORT_ENABLE_ALL if optimize
                                   else ort.GraphOptimizationLevel.ORT_DISABLE_ALL)
    if extensions:
        import onnxruntime_extensions
        so.register_custom_ops_library(onnxruntime_extensions.get_library_path())
    return ort.InferenceSession(model_bytes, so, providers=["CPUExecutionProvider"])


def run_onnx(model, feeds, optimize=False, extensions=False, outputs=None):
    m = model if isinstance(model, bytes) else model.SerializeToString()
    s = session(m, optimize, extensions)
    return s.run(outputs, feeds)


def convert(fn, specs, opset, **kw):
    f = tf.function(fn, autograph=False) if not hasattr(fn, "get_concrete_function") else fn
    model, ext = tf2onnx.convert.from_function(f, input_signature=specs, opset=opset, **kw)
    return model


TOL = {F32: (2e-4, 2e-5), F64: (1e-4, 1e-5), F16: (2e-2, 1e-2)}


def diff(ref, got, tol=None, dtype_strict=True):
    """None when `got` equals `ref` within tolerance, else a message."""
    ref = np.asarray(ref)
    got = np.asarray(got)
    if ref.dtype.kind in "SUO" or got.dtype.kind in "SUO":
        r = [x.decode("utf-8", "replace") if isinstance(x, bytes) else str(x) for x in ref.reshape(-1).tolist()]
        g = [x.decode("utf-8", "replace") if isinstance(x, bytes) else str(x) for x in got.reshape(-1).tolist()]
        if ref.shape != got.shape:
            return "shape %s, expected %s" % (got.shape, ref.shape)
        return None if r == g else "value %s, expected %s" % (g[:12], r[:12])
    if dtype_strict and ref.dtype != got.dtype:
        return "dtype %s, expected %s" % (got.dtype, ref.dtype)
    if ref.shape != got.shape:
        return "shape %s, expected %s" % (got.shape, ref.shape)
    if ref.size == 0:
        return None
    if ref.dtype.kind != "f":
        if np.array_equal(ref, got):
            return None
        bad = np.argwhere(ref != got)
        i = tuple(bad[0])
        return "%d of %d values differ, first at %s: %s, expected %s" % (len(bad), ref.size, i, got[i], ref[i])
    rtol, atol = tol or TOL.get(str(ref.dtype), (2e-4, 2e-5))
    if ref.dtype == np.float16:
        rtol, atol = max(rtol, TOL[F16][0]), max(atol, TOL[F16][1])
    a, b = ref.astype(np.float64), got.astype(np.float64)
    fin = np.abs(a[np.isfinite(a)])
    scale = max(1.0, float(fin.max()) if fin.size else 1.0)
    ok = np.isclose(b, a, rtol=rtol, atol=atol * scale, equal_nan=True)
    if ok.all():
        return None
    bad = np.argwhere(~ok)
    i = tuple(bad[0])
    return "%d of %d values differ, first at %s: %s, expected %s" % (len(bad), ref.size, i, got[i], ref[i])


# ------------------------------------------------------------------ cells

class Cell:
    def __init__(self, name, gen, build, groups, minop=9, tol=None, kernel=None, weight=1, tags=()):
        self.name, self.gen, self.build, self.groups = name, gen, build, groups
        self.ref = None     # what TensorFlow computes, where its CPU kernels lack the layout under test
        self.minop, self.tol, self.weight, self.tags = minop, tol, weight, set(tags)


CELLS = {}


def cell(name, groups, minop=9, tol=None, weight=1, tags=()):
    """Decorator on gen(d, opset); its .build attribute is set with @gen.builds or by returning (p, build)."""
    def deco(gen):
        c = Cell(name, gen, None, groups.split(), minop, tol, weight=weight, tags=tags)
        assert name not in CELLS, name
        CELLS[name] = c

        def builds(fn):
            c.build = fn
            return fn

        def refs(fn):
            c.ref = fn
            return fn
        gen.builds, gen.refs = builds, refs
        return gen
    return deco


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [x]


def draw_cell(d, opset, group, names=None, forbid_tags=()):
    pool = [c for c in CELLS.values() if group in c.groups and c.minop <= opset and not (c.tags & set(forbid_tags))]
    if names:
        pool = [c for c in pool if c.name in names]
    c = d.weighted([(c.weight, c) for c in pool])
    p = c.gen(d, opset)
    if opset >= 18 and not (groups_without_dtypes & set(c.groups)):
        other_dtype(d, c.name, p)
    return {"cell": c.name, "p": p}


groups_without_dtypes = set()
_dtypes = None


def other_dtype(d, name, p):
    """Gives the data operands a type other than the cell's own, from the table of those the runtime has kernels for."""
    global _dtypes
    if _dtypes is None:
        import json
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "dtypes.json")) as f:
            _dtypes = json.load(f)
    data = [i for i in p["ins"] if i["kind"] != "value"]
    if not data or name not in _dtypes or not d.prob(33):
        return
    old = data[0]["dtype"]
    others = [x for x in _dtypes[name] if x != old and (is_float(x) or not {"C03", "C04", "C05"} & set(CELLS[name].groups))]
    if not others or old == STR:
        return
    new = d.choice(others)
    for i in data:
        if i["dtype"] == old:
            i["dtype"] = new
            i.pop("off", None)
    if p.get("dtype") == old:
        p["dtype"] = new


def cell_inputs(cells, modes=None):
    """Splits the inputs of all cells: returns [(ci, k, desc, value)]"""
    out = []
    for ci, c in enumerate(cells):
        for k, desc in enumerate(c["p"]["ins"]):
            out.append((ci, k, desc, make(desc)))
    return out


def to_tensor(value, dtype):
    if dtype == STR:
        return tf.constant(value.tolist() if value.size else np.zeros(value.shape, dtype=str), dtype=tf.string, shape=value.shape)
    return tf.constant(value, dtype=tf_dtype(dtype))


def eager_outputs(cells, ins):
    """Reference outputs: [[np arrays] per cell]."""
    outs = []
    for ci, c in enumerate(cells):
        args = [to_tensor(v, desc["dtype"]) for (i, k, desc, v) in ins if i == ci]
        try:
            cl = CELLS[c["cell"]]
            res = flat((cl.ref or cl.build)(c["p"], *args))
            outs.append([x.numpy() if hasattr(x, "numpy") else np.asarray(x) for x in res])
        except (tf.errors.OpError, ValueError, TypeError, NotImplementedError) as e:
            raise Reject("TensorFlow refuses %s: %s" % (c["cell"], str(e)[:200]))
    return outs


def make_fn(cells, ins, const=lambda ci, k, desc: desc["mode"] == "const"):
    """The tf function of the placeholders, the TensorSpecs and the feeds."""
    specs, feeds, where = [], {}, []
    for (ci, k, desc, v) in ins:
        if not const(ci, k, desc):
            name = "x%d_%d" % (ci, k)
            specs.append(spec_of(desc, name))
            feeds[name] = v
            where.append((ci, k))
            if desc.get("norank"):
                # passed on through a reshape to a shape of unknown length
                specs.append(tf.TensorSpec([None], tf.int32, name="s%d_%d" % (ci, k)))
                feeds["s%d_%d" % (ci, k)] = np.array(desc["shape"], np.int32)
                where.append(("shape", ci, k))
    need_dummy = not specs
    if need_dummy:
        specs.append(tf.TensorSpec([1], tf.float32, name="dummy"))
        feeds["dummy"] = np.zeros([1], np.float32)

    def fn(*args):
        table = {w: a for w, a in zip(where, args)}
        for w in where:
            if w[0] == "shape":
                table[w[1:]] = tf.reshape(table[w[1:]], table[w])
        res = []
        for ci, c in enumerate(cells):
            ts = []
            for (i, k, desc, v) in ins:
                if i == ci:
                    ts.append(table[(ci, k)] if (ci, k) in table else to_tensor(v, desc["dtype"]))
            for x in flat(CELLS[c["cell"]].build(c["p"], *ts)):
                res.append(tf.identity(x))
        if need_dummy:
            res.append(args[0] + 1.0)
        return res
    return fn, specs, feeds


def names_of_outputs(model):
    return [o.name for o in model.graph.output]


def convert_checked(fn, specs, opset, what, **kw):
    try:
        return convert(fn, specs, opset, **kw)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001 - any refusal of a supported program breaks the property
        raise Violation("conversion failed at opset %d for %s: %s: %s" % (opset, what, type(e).__name__, str(e)[:800]))


def run_checked(model, feeds, what, **kw):
    feeds = {k: v for k, v in feeds.items() if k in {i.name for i in model.graph.input}} if hasattr(model, "graph") else feeds
    try:
        return run_onnx(model, feeds, **kw)
    except Exception as e:  # noqa: BLE001
        raise Violation("the converted model does not run for %s: %s" % (what, str(e)[:800]))


def what_of(cells):
    return ", ".join(c["cell"] for c in cells)


def check_cells(spec, **kw):
    """Agreement of a program of independent cells with TensorFlow."""
    cells, opset = spec["cells"], spec["opset"]
    ins = cell_inputs(cells)
    refs = eager_outputs(cells, ins)
    fn, specs, feeds = make_fn(cells, ins)
    model = convert_checked(fn, specs, opset, what_of(cells), **kw)
    got = run_checked(model, feeds, what_of(cells), optimize=spec.get("ortopt", False))
    compare_cells(cells, refs, got, "opset %d" % opset)
    return model, refs, got


def compare_cells(cells, refs, got, where):
    pos = 0
    for c, ref in zip(cells, refs):
        for j, r in enumerate(ref):
            m = diff(r, got[pos], CELLS[c["cell"]].tol)
            if m:
                raise Violation("%s output %d (%s): %s; params %s" % (c["cell"], j, where, m, describe_p(c["p"])))
            pos += 1


def describe_p(p):
    import json
    q = dict(p)
    q["ins"] = [{k: v for k, v in i.items() if k in ("shape", "dtype", "mode", "dyn", "value", "kind")} for i in p["ins"]]
    return json.dumps(q)[:900]


def describe(spec):
    return {"opset": spec.get("opset"), "cells": [{"cell": c["cell"], "p": describe_p(c["p"])[:300]} for c in spec["cells"]]}


def cell_suite_gen(group, per=(1, 6), opsets=(18, 18, 18, 17, 16, 15, 14, 13), names=None):
    def gen(d):
        opset = d.choice(opsets)
        n = d.int(*per)
        return {"opset": opset, "cells": [draw_cell(d, opset, group, names) for _ in range(n)]}
    return gen


def cell_info(spec, refs):
    from core import stable_hash
    keys, classes = [], []
    for c, r in zip(spec["cells"], refs):
        classes.append(c["cell"])
        if any(x.size for x in r):
            keys.append(stable_hash(c)[:12])
    classes.append("opset%d" % spec["opset"])
    for c in spec["cells"]:
        for i in c["p"]["ins"]:
            if i["mode"] == "const":
                classes.append("const-operand")
            if i.get("dyn"):
                classes.append("unknown-dim")
            if 0 in i["shape"]:
                classes.append("empty-operand")
    return Info(bool(keys), classes, evals=len(spec["cells"]), key=keys)


def run_cell_spec(spec):
    _, refs, _ = check_cells(spec)
    return cell_info(spec, refs)
