"""The interface of the converted model: names, order, types and shapes of inputs and outputs; layouts; overrides."""
import allcells
import numpy as np
import onnx
import prog
import tensorflow as tf
import valid
from core import Info, Reject, Suite, Violation

NAMES = ["x", "y", "input", "input_1", "Identity", "a_b", "X", "z9", "data", "out", "Placeholder", "k", "serving_default_x", "w.r"]
OUT_NAMES = ["y", "x", "out", "Identity", "output_0", "logits", "B", "a", "input", "result_1", "zz", "b/c", "k"]
RANK4 = [[1, 4, 4, 2], [2, 3, 4, 2], [1, 5, 3, 1], [1, 1, 1, 3], [2, 2, 2, 2], [1, 1, 4, 3]]
SHAPES = [[], [3], [2, 3], [2, 3, 4], [1], [4, 1]]


def gen(d):
    ins, names = [], []
    for i in range(d.int(1, 4)):
        free = [n for n in NAMES if n not in names]
        names.append(d.choice(free))
        sh = d.choice(RANK4) if d.prob(55) else d.choice(SHAPES)
        ins.append({"name": names[-1], "shape": sh, "dtype": d.weighted([(5, "float32"), (1, "int32"), (1, "float64"), (1, "bool"), (1, "int64")]),
                    "dyn": [d.bool() for _ in sh] if d.prob(30) else [], "seed": d.seed()})
    outs = []
    for i in range(d.int(1, 5)):
        k = d.weighted([(3, "pass"), (2, "const"), (4, "op"), (2, "two"), (2, "repeat"), (2, "transpose"), (1, "cond"), (1, "loop"), (2, "conv"), (1, "shape"),
                        (1, "reshape"), (1, "reduce")])
        o = {"kind": k, "i": d.int(0, 9), "j": d.int(0, 9), "s": d.choice(RANK4 + SHAPES), "seed": d.seed(), "perm": d.int(0, 5), "direct": d.prob(40)}
        outs.append(o)
    st = d.weighted([(4, "list"), (3, "dict"), (1, "single"), (1, "tuple")])
    if st == "single":
        outs = outs[:1]
    spec = {"opset": d.choice([18, 18, 18, 16, 15, 14, 13]), "ins": ins, "outs": outs, "struct": st, "keys": d.subset(OUT_NAMES, len(outs), len(outs)),
            "keyperm": d.perm(len(outs)), "path": d.weighted([(5, "function"), (4, "graph_def")]), "nchw_in": d.int(0, 15) if d.prob(45) else 0,
            "nchw_out": d.int(0, 31) if d.prob(45) else 0, "user_names": d.bool(), "rename": d.int(0, 2), "sel": [d.prob(80) for _ in outs],
            "order": d.perm(len(outs)), "in_order": d.perm(len(ins)), "override": d.weighted([(5, "none"), (2, "more"), (1, "less"), (1, "other")])}
    return spec


def value(i, batch=None):
    r = np.random.RandomState(i["seed"])
    n = int(np.prod(i["shape"])) if i["shape"] else 1
    a = r.randint(0, 2, n) if i["dtype"] == "bool" else r.randint(-6, 7, n) * (0.5 if i["dtype"].startswith("float") else 1)
    return np.asarray(a).astype(i["dtype"]).reshape(i["shape"])


def num(x):
    return tf.cast(x, tf.float32) if x.dtype != tf.float32 else x


def program(spec):
    outs = spec["outs"]

    def fn(*xs):
        res = []
        for o in outs:
            x = xs[o["i"] % len(xs)]
            y2 = xs[o["j"] % len(xs)]
            k = o["kind"]
            if k == "repeat" and not res:
                k = "pass"
            if k in ("transpose", "conv") and x.shape.rank != 4:
                k = "op"
            if k == "pass":
                y = x
            elif k == "const":
                y = tf.constant(value({"shape": o["s"], "dtype": "float32", "seed": o["seed"]}))
            elif k == "op":
                y = tf.logical_not(x) if x.dtype == tf.bool else tf.nn.relu(x) * 2 if x.dtype == tf.float32 else x * 3
            elif k == "two":
                y = num(x) - tf.reduce_sum(num(y2))
            elif k == "repeat":
                y = res[o["j"] % len(res)]
            elif k == "transpose":
                y = tf.transpose(x, [[0, 2, 3, 1], [0, 3, 1, 2], [3, 2, 1, 0], [0, 2, 1, 3], [1, 0, 2, 3], [0, 1, 3, 2]][o["perm"]])
            elif k == "conv":
                c = x.shape[3] or 1
                w = np.random.RandomState(o["seed"]).randint(-2, 3, [2, 2, c, 3]).astype(np.float32)
                y = tf.nn.conv2d(num(x), w, 1, "SAME") + 1.0 if x.shape[3] else num(x) + 1
            elif k == "cond":
                y = tf.cond(tf.reduce_sum(num(y2)) > 0, lambda: num(x) + 1, lambda: -num(x))
            elif k == "loop":
                y = tf.while_loop(lambda i, a: i < 3, lambda i, a: (i + 1, a + num(x)), [tf.constant(0), num(x)])[1]
            elif k == "shape":
                y = tf.shape(x)
            elif k == "reshape":
                y = tf.reshape(num(x), [-1])
            else:
                y = tf.reduce_sum(num(x), axis=-1, keepdims=True) if x.shape.rank else num(x)
            res.append(y)
        st = spec["struct"]
        if st == "dict":
            return {k: res[p] for k, p in zip(spec["keys"], spec["keyperm"])}
        if st == "single":
            return res[0]
        return tuple(res) if st == "tuple" else res
    return fn


def dims(v):
    tt = v.type.tensor_type
    if not tt.HasField("shape"):
        return None
    return [x.dim_value if x.HasField("dim_value") else None for x in tt.shape.dim]


def run(spec):
    import tf2onnx
    from tf2onnx import tf_loader
    ins = spec["ins"]
    vals = [value(i) for i in ins]
    specs = [tf.TensorSpec([None if i["dyn"] and i["dyn"][k] else s for k, s in enumerate(i["shape"])], i["dtype"], name=i["name"]) for i in ins]
    f = tf.function(program(spec), autograph=False)
    try:
        cf = f.get_concrete_function(*specs)
        refs = [x.numpy() for x in tf.nest.flatten(f(*[tf.constant(v) for v in vals]))]
    except Exception as e:  # noqa: BLE001
        raise Reject("TensorFlow refuses it: %s" % str(e)[:200])
    tin, tout = [t.name for t in cf.inputs], [t.name for t in cf.outputs]
    static_out = [t.shape for t in cf.outputs]
    user_in = [i["name"] for i in ins]
    kw = {}
    what = "inputs %s, outputs %s as a %s, %s at opset %d" % (
        ["%s %s%s" % (i["name"], i["dtype"], i["shape"]) for i in ins], [o["kind"] for o in spec["outs"]], spec["struct"], spec["path"], spec["opset"])
    if spec["path"] == "function":
        names_in = user_in
        names_out = sorted(spec["keys"]) if spec["struct"] == "dict" else tout
        order_out = list(range(len(refs)))
        order_in = list(range(len(ins)))
        if set(names_out) & set(names_in):
            raise Reject("an input and an output of one name")    # no model can have that
    else:
        gd = tf_loader.from_function(cf, tin, tout)
        order_out = [i for i in spec["order"] if spec["sel"][i]] or [spec["order"][0]]
        order_in = spec["in_order"]
        g_in, g_out = [tin[i] for i in order_in], [tout[i] for i in order_out]
        # without the identities which a function puts behind its results
        src = {n.name + ":0": n for n in gd.node}
        for q, i in enumerate(order_out):
            n = src.get(g_out[q])
            if spec["outs"][0]["direct"] and n is not None and n.op == "Identity" and len(n.input) == 1:
                t = n.input[0] if ":" in n.input[0] else n.input[0] + ":0"
                if t not in g_out and t in src:
                    g_out[q] = t
        ren = {}
        if spec["rename"]:
            for q, n in enumerate(g_in):
                if spec["rename"] == 2 or q % 2 == 0:
                    ren[n] = "in_%d" % q
            for q, n in enumerate(g_out):
                if n not in ren and (spec["rename"] == 2 or q % 2):
                    ren[n] = "res_%d" % q
        names_in, names_out = [ren.get(n, n) for n in g_in], [ren.get(n, n) for n in g_out]
        if ren:
            kw["tensors_to_rename"] = ren
        kw["input_names"], kw["output_names"] = list(g_in), list(g_out)
        if set(g_in) & set(g_out):
            raise Reject("an output is an input")
    raw_in = tin if spec["path"] == "function" else g_in
    raw_out = tout if spec["path"] == "function" else g_out
    exp_in = [(names_in[q], ins[i]) for q, i in enumerate(order_in)]
    exp_out = [(names_out[q], refs[i], static_out[i]) for q, i in enumerate(order_out)]
    nin = [q for q, (n, i) in enumerate(exp_in) if len(i["shape"]) == 4 and spec["nchw_in"] >> q & 1]
    nout = [q for q, (n, r, s) in enumerate(exp_out) if r.ndim == 4 and s.rank == 4 and spec["nchw_out"] >> q & 1]
    if nin:
        kw["inputs_as_nchw"] = [names_in[q] if spec["user_names"] else raw_in[q] for q in nin]
    if nout:
        kw["outputs_as_nchw"] = [names_out[q] if spec["user_names"] else raw_out[q] for q in nout]
    over = {}
    if spec["override"] != "none":
        for q, (n, i) in enumerate(exp_in):
            if not i["shape"]:
                continue
            if spec["override"] == "more":
                over[raw_in[q]] = list(i["shape"])
            elif spec["override"] == "less" and i["dyn"]:
                over[raw_in[q]] = [None if u else s for s, u in zip(i["shape"], i["dyn"])]
            elif spec["override"] == "other" and q % 2 == 0:
                over[raw_in[q]] = [s if k != 0 else -1 for k, s in enumerate(i["shape"])]
        kw["shape_override"] = {k: [None if x in (-1, None) else x for x in v] for k, v in over.items()}
    what += " " + str({k: v for k, v in kw.items() if k not in ("input_names", "output_names")})
    with allcells.errors_logged() as errors:
        try:
            if spec["path"] == "function":
                model, _ = tf2onnx.convert.from_function(f, input_signature=specs, opset=spec["opset"], **kw)
            else:
                model, _ = tf2onnx.convert.from_graph_def(gd, opset=spec["opset"], **kw)
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: conversion fails: %s: %s" % (what, type(e).__name__, str(e)[:400]))
    if errors:
        raise Violation("%s: conversion fails: %s" % (what, errors[0][:400]))
    if [i.name for i in model.graph.input] != names_in:
        raise Violation("%s: inputs are %s, expected %s" % (what, [i.name for i in model.graph.input], names_in))
    if [o.name for o in model.graph.output] != names_out:
        raise Violation("%s: outputs are %s, expected %s" % (what, [o.name for o in model.graph.output], names_out))
    for q, (v, (n, i)) in enumerate(zip(model.graph.input, exp_in)):
        np_t = onnx.helper.tensor_dtype_to_np_dtype(v.type.tensor_type.elem_type)
        if np_t != np.dtype(i["dtype"]):
            raise Violation("%s: input %s is declared %s" % (what, n, np_t))
        want = [None if i["dyn"] and i["dyn"][k] else s for k, s in enumerate(i["shape"])]
        if raw_in[q] in over:
            o = [None if x in (-1, None) else x for x in over[raw_in[q]]]
            want = o
        if q in nin:
            want = [want[k] for k in (0, 3, 1, 2)]
        if dims(v) != want:
            raise Violation("%s: input %s is declared with shape %s, expected %s" % (what, n, dims(v), want))
    for q, (v, (n, r, s)) in enumerate(zip(model.graph.output, exp_out)):
        np_t = onnx.helper.tensor_dtype_to_np_dtype(v.type.tensor_type.elem_type)
        if np_t != r.dtype:
            raise Violation("%s: output %s is declared %s, is %s" % (what, n, np_t, r.dtype))
        have = dims(v)
        real = [r.shape[k] for k in (0, 3, 1, 2)] if q in nout else list(r.shape)
        if have is not None and (len(have) != len(real) or any(h is not None and h != x for h, x in zip(have, real))):
            raise Violation("%s: output %s is declared with shape %s, has %s" % (what, n, have, real))
        if s.rank is not None and have is None:
            raise Violation("%s: output %s has no declared shape, %s in the program" % (what, n, s))
        if s.rank is not None and q not in nout and any(t is not None and h is None for t, h in zip(s.as_list(), have)) and not over:
            raise Violation("%s: output %s is declared with shape %s, %s in the program" % (what, n, have, s.as_list()))
    valid.check(model, spec["opset"], what)
    feeds = {}
    for q, i in enumerate(order_in):
        v = vals[i]
        feeds[names_in[q]] = np.ascontiguousarray(v.transpose(0, 3, 1, 2)) if q in nin else v
    got = prog.run_checked(model, feeds, what)
    for q, ((n, r, s), g) in enumerate(zip(exp_out, got)):
        m = prog.diff(r.transpose(0, 3, 1, 2) if q in nout else r, g)
        if m:
            raise Violation("%s: output %s: %s" % (what, n, m))
    return Info(True, [o["kind"] for o in spec["outs"]] + [spec["struct"], spec["path"], "override-" + spec["override"]] +
                (["inputs-nchw"] if nin else []) + (["outputs-nchw"] if nout else []))


def describe(spec):
    return {"opset": spec["opset"], "inputs": [(i["name"], i["shape"]) for i in spec["ins"]], "outputs": [o["kind"] for o in spec["outs"]], "path": spec["path"],
            "struct": spec["struct"]}


SUITES = [
    Suite("interface", gen, run, quick=1200, describe=describe),
]
