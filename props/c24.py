"""Large-model packages: nothing is lost, nothing stored twice, files load back as they were saved."""
import os
import shutil
import tempfile
import zipfile

import allcells
import numpy as np
import onnx
import onnxgen
import prog
import tensorflow as tf
from core import Info, Reject, Suite, Violation
from onnx import TensorProto, numpy_helper

NAMES = ["c", "long" * 70, "a..b", "Const", "w/kernel", "a.b-c", "layer_1/dense/MatMul/ReadVariableOp", "x.onnx", ".hidden", "very" * 20, "A", "a", "w_1", "w_2", "z/../y", "__MODEL_PROTO"]
SHAPES = [[1024], [1025], [1023], [32, 32], [5, 205], [41, 25], [1030], [2, 2, 257], [1, 1500], [40, 40], [250], [251], [126], [125], [64, 32], [3, 700], [7], [2048]]
DTYPES = ["float32", "float32", "float32", "int32", "int64", "float64", "float16", "int8", "uint8", "bool", "string", "int16", "uint16"]
PLACES = ["main", "main", "main", "variable", "then", "else", "loop", "nested"]


def gen(d):
    consts = []
    for i in range(d.int(1, 5)):
        if consts and d.prob(30):
            c = dict(d.choice(consts))
            c["how"] = d.choice(["equal", "same"])
        else:
            c = {"dtype": d.choice(DTYPES), "shape": d.choice(SHAPES) if d.prob(80) else [d.int(1, 40), d.int(1, 60)], "seed": d.seed(), "how": "new",
                 "kind": d.weighted([(6, "random"), (1, "fill"), (1, "zero")])}
        c["place"] = d.choice(PLACES) if c["dtype"] != "string" or c["how"] == "new" else "main"
        if c["dtype"] == "string" and c["place"] in ("variable", "loop"):
            c["place"] = "main"
        c["name"] = d.choice(NAMES)
        c["twice"] = d.prob(25)
        consts.append(c)
    return {"opset": d.choice([18, 18, 18, 16, 15, 13]), "consts": consts, "path": d.weighted([(3, "function"), (1, "graph_def")]),
            "x": d.int(0, 5), "pred": d.bool(), "sub": d.prob(20)}


def value(c):
    r = np.random.RandomState(c["seed"])
    n = int(np.prod(c["shape"]))
    if c["dtype"] == "string":
        return np.array([b"s%d" % i for i in r.randint(0, 99, n)], dtype=object).reshape(c["shape"])
    if c["kind"] == "fill":
        a = np.full(n, 3)
    elif c["kind"] == "zero":
        a = np.zeros(n)
    else:
        a = r.randn(n) * 10 if c["dtype"].startswith("float") else r.randint(0, 100, n)
    if c["dtype"] == "bool":
        a = r.randint(0, 2, n)
    return a.astype(c["dtype"]).reshape(c["shape"])


def program(spec):
    consts, vs = spec["consts"], {}
    for i, c in enumerate(consts):
        if c["place"] == "variable":
            vs[i] = tf.Variable(value(c), name="v%d" % i)

    def fn(idx, p):
        outs, made = [], {}
        for i, c in enumerate(consts):
            key = (c["seed"], c["dtype"], tuple(c["shape"]))

            def const(c=c):
                n = c["name"]
                safe = "".join(ch if ch.isalnum() or ch in "._-/" else "_" for ch in n)
                if not safe[0].isalnum() and safe[0] != ".":
                    safe = "n" + safe
                return tf.constant(value(c).tolist() if c["dtype"] == "string" else value(c), name=safe)

            def take(t):
                return tf.gather(t, idx % tf.cast(tf.shape(t)[0], tf.int32))
            if c["place"] == "main":
                if c["how"] == "same" and key in made:
                    t = made[key]
                else:
                    t = made[key] = const()
                y = take(t)
            elif c["place"] == "variable":
                y = take(vs[i])
            elif c["place"] in ("then", "else"):
                def other():
                    z = tf.zeros([2] + c["shape"][1:], c["dtype"]) if c["dtype"] != "string" else tf.fill([2] + c["shape"][1:], "none")
                    return take(z)
                a, b = (lambda: take(const())), other
                y = tf.cond(p, a, b) if c["place"] == "then" else tf.cond(p, b, a)
            elif c["place"] == "nested":
                def inner():
                    return tf.cond(tf.logical_not(tf.logical_not(p)), lambda: take(const()), lambda: tf.reverse(take(const()), [0]))

                def outer():
                    return take(tf.reverse(const(), [0]))
                y = tf.cond(tf.greater(idx[0], 2), inner, outer)
            else:
                y0 = take(const())
                ok = c["dtype"] in ("float32", "float64", "int32", "int64")

                def body(k, acc):
                    nxt = take(const())
                    return k + 1, (acc + nxt if ok else nxt)
                _, y = tf.while_loop(lambda k, acc: k < idx[0], body, [tf.constant(0), y0])
            outs.append(tf.identity(y))
            if c["twice"] and c["place"] == "main":
                outs.append(tf.identity(tf.shape(t)[0] * idx[0]))
                outs.append(take(tf.reverse(t, [0])) if t.shape.rank and c["dtype"] in ("float32", "int32", "int64", "float64") else tf.identity(y))
        return outs
    return fn, vs


def bits(a):
    return (str(a.dtype), a.shape, a.tobytes() if a.dtype.kind not in "OSU" else repr([x.decode() if isinstance(x, bytes) else x for x in a.reshape(-1).tolist()]).encode())


def tensors(model):
    """All tensors of a model with the place they are in."""
    todo, out = [model.graph], []
    while todo:
        g = todo.pop()
        out += [(t, "initializer " + t.name) for t in g.initializer]
        for n in g.node:
            for a in n.attribute:
                if a.type == onnx.AttributeProto.TENSOR:
                    out.append((a.t, "%s of %s" % (a.name, n.name)))
                out += [(t, "%s of %s" % (a.name, n.name)) for t in a.tensors]
                if a.type == onnx.AttributeProto.GRAPH:
                    todo.append(a.g)
                todo += list(a.graphs)
    return out


def load_package(path, scratch, threshold, what, storage=None, model=None):
    """Unpacks a package and loads it, after checking that it is complete."""
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        if len(set(names)) != len(names):
            raise Violation("%s: the package has several files with one name: %s" % (what, names))
        protos = [n for n in names if n == "__MODEL_PROTO.onnx"]
        if len(protos) != 1:
            raise Violation("%s: the package has no model: %s" % (what, names))
        data = {n: z.read(n) for n in names if n != protos[0]}
        proto = onnx.ModelProto()
        proto.ParseFromString(z.read(protos[0]))
        bad = [n for n in names if os.path.basename(n) != n or n in (".", "..")]
        if bad:
            raise Violation("%s: files of the package are outside of its directory: %s" % (what, bad))
        z.extractall(scratch)
    if len({n.lower() for n in names}) != len(names):
        pass
    used = {}
    for t, where in tensors(proto):
        n = int(np.prod(t.dims)) if t.dims else 1
        if t.data_location == TensorProto.EXTERNAL:
            loc = [e.value for e in t.external_data if e.key == "location"]
            if len(loc) != 1 or loc[0] not in data:
                raise Violation("%s: %s is stored in %s, which isn't in the package" % (what, where, loc))
            if t.data_type == TensorProto.STRING:
                raise Violation("%s: %s has strings and is stored externally" % (what, where))
            if loc[0] in used:
                raise Violation("%s: %s and %s are stored in one file" % (what, where, used[loc[0]]))
            used[loc[0]] = where
            want = n * np.dtype(onnx.helper.tensor_dtype_to_np_dtype(t.data_type)).itemsize
            if len(data[loc[0]]) != want:
                raise Violation("%s: %s needs %d bytes, %d are stored" % (what, where, want, len(data[loc[0]])))
            if t.raw_data or len(t.float_data) or len(t.int32_data) or len(t.int64_data) or len(t.double_data) or len(t.uint64_data):
                raise Violation("%s: %s is stored in the model and in the package" % (what, where))
        elif n > threshold and t.data_type != TensorProto.STRING and where.startswith("initializer"):
            raise Violation("%s: %s with %d elements is not stored externally" % (what, where, n))
    spare = set(data) - set(used)
    if spare:
        raise Violation("%s: no tensor takes the stored data %s" % (what, sorted(spare)))
    if storage is not None and {k: bytes(v) for k, v in storage.name_to_tensor_data.items()} != data:
        raise Violation("%s: the stored tensors are not those of the storage returned" % what)
    if model is not None and proto.SerializeToString() != model.SerializeToString():
        raise Violation("%s: the model in the package is not the model returned" % what)
    loaded = onnx.load(os.path.join(scratch, "__MODEL_PROTO.onnx"))
    return loaded, len(used)


def run_session(path_or_bytes, feeds, what):
    try:
        s = prog.session(path_or_bytes)
        names = {i.name for i in s.get_inputs()}
        return s.run(None, {k: v for k, v in feeds.items() if k in names})
    except Exception as e:  # noqa: BLE001
        raise Violation("%s: the model does not load or run: %s" % (what, str(e)[:500]))


def round_trips(model, storage, scratch, feeds, what):
    """What was saved is what is loaded, by the converter's own functions."""
    from tf2onnx import utils
    from tf2onnx.graph import ExternalTensorStorage
    d = os.path.join(scratch, "saved")
    p = utils.save_onnx_model(d, "m", {}, model, external_tensor_storage=storage)
    got = onnx.load(p)
    if storage is None:
        if got.SerializeToString() != model.SerializeToString() or utils.model_proto_from_file(p).SerializeToString() != model.SerializeToString():
            raise Violation("%s: the model loaded is not the model saved" % what)
        q = os.path.join(d, "t", "m.pbtxt")
        utils.save_protobuf(q, model, as_text=True)
        from google.protobuf import text_format
        with open(q) as f:
            back = text_format.Parse(f.read(), onnx.ModelProto())
        if back.SerializeToString(deterministic=True) != model.SerializeToString(deterministic=True):
            raise Violation("%s: the model saved as text is not the model" % what)
    else:
        s2 = ExternalTensorStorage()
        m2 = utils.model_proto_from_zip(os.path.join(d, "m.zip"), s2)
        if m2.SerializeToString() != model.SerializeToString():
            raise Violation("%s: the model read from the package is not the model saved" % what)
        if {k: bytes(v) for k, v in s2.name_to_tensor_data.items()} != {k: bytes(v) for k, v in storage.name_to_tensor_data.items()}:
            raise Violation("%s: the tensors read from the package are not those saved" % what)
    return p


def run(spec):
    import tf2onnx
    fn, vs = program(spec)
    idx = (np.arange(3) + spec["x"]).astype(np.int32)
    feeds = {"idx": idx, "p": np.array(spec["pred"])}
    try:
        refs = [x.numpy() for x in fn(tf.constant(idx), tf.constant(spec["pred"]))]
    except (tf.errors.OpError, ValueError, TypeError) as e:
        raise Reject("TensorFlow refuses it: %s" % str(e)[:200])
    specs = [tf.TensorSpec([3], tf.int32, name="idx"), tf.TensorSpec([], tf.bool, name="p")]
    what = "consts %s at opset %d from a %s" % (["%s%s %s %s" % (c["dtype"], c["shape"], c["place"], c["how"]) for c in spec["consts"]], spec["opset"], spec["path"])
    scratch = tempfile.mkdtemp(prefix="verif_c24_")
    try:
        target = os.path.join(scratch, "out", "p.zip") if spec["sub"] else os.path.join(scratch, "p.zip")
        f = tf.function(fn, autograph=False)

        def convert(**kw):
            with allcells.errors_logged() as errors:
                if spec["path"] == "function":
                    r = tf2onnx.convert.from_function(f, input_signature=specs, opset=spec["opset"], **kw)
                else:
                    from tf2onnx import tf_loader
                    cf = f.get_concrete_function(*specs)
                    ins = [t.name for t in cf.inputs if t.dtype != tf.resource]
                    outs = [t.name for t in cf.outputs]
                    gd = tf_loader.from_function(cf, ins, outs)
                    r = tf2onnx.convert.from_graph_def(gd, input_names=ins, output_names=outs, opset=spec["opset"], **kw)
            return r, errors
        try:
            (plain, none), e0 = convert(output_path=os.path.join(scratch, "plain", "m.onnx"))
        except Exception as e:  # noqa: BLE001
            raise Reject("refused by the ordinary conversion: %s" % str(e)[:200])
        if e0:
            raise Reject("refused by the ordinary conversion: %s" % e0[0][:200])
        ren = (lambda x: x + ":0") if spec["path"] == "graph_def" else (lambda x: x)
        feeds = {ren(k): v for k, v in feeds.items()}
        if none is not None:
            raise Violation("%s: an ordinary conversion returned external tensors" % what)
        try:
            ref2 = prog.session(plain.SerializeToString()).run(None, {k: v for k, v in feeds.items() if k in {i.name for i in plain.graph.input}})
        except Exception as e:  # noqa: BLE001
            raise Reject("the ordinary conversion does not run: %s" % str(e)[:200])
        if len(ref2) != len(refs) or any(prog.diff(r, r2) for r, r2 in zip(refs, ref2)):
            raise Reject("the ordinary conversion computes something else")   # C01 to C07; the runtime's Gather of rows of strings
        if onnx.load(os.path.join(scratch, "plain", "m.onnx")).SerializeToString() != plain.SerializeToString():
            raise Violation("%s: the file written is not the model returned" % what)
        try:
            (model, storage), e1 = convert(large_model=True, output_path=target)
        except Exception as e:  # noqa: BLE001
            raise Violation("%s: the conversion as a large model fails: %s: %s" % (what, type(e).__name__, str(e)[:300]))
        if e1:
            raise Violation("%s: the conversion as a large model fails: %s" % (what, e1[0][:300]))
        if storage is None:
            raise Violation("%s: no external tensors are returned" % what)
        un = os.path.join(scratch, "un")
        loaded, n = load_package(target, un, storage.external_tensor_size_threshold, what, storage, model)
        for nm, src in (("unpacked", os.path.join(un, "__MODEL_PROTO.onnx")), ("loaded", loaded.SerializeToString())):
            got = run_session(src, feeds, "%s, %s" % (what, nm))
            for r, r2, g in zip(refs, ref2, got):
                m = prog.diff(r2, g, (0, 0)) or prog.diff(r, g)
                if m:
                    raise Violation("%s, %s: %s" % (what, nm, m))
            if len(got) != len(ref2):
                raise Violation("%s, %s: %d outputs, %d expected" % (what, nm, len(got), len(ref2)))
        p = round_trips(model, storage, scratch, feeds, what)
        got = run_session(p, feeds, what + ", saved again")
        for r, g in zip(ref2, got):
            m = prog.diff(r, g)
            if m:
                raise Violation("%s, saved again: %s" % (what, m))
        round_trips(plain, None, os.path.join(scratch, "p2"), feeds, what)
        # the big constants which are looked up directly come back bit for bit
        have = {bits(numpy_helper.to_array(t)) for t, _ in tensors(loaded)}
        for c in spec["consts"]:
            if c["place"] == "main" and int(np.prod(c["shape"])) > 1024 and bits(value(c)) not in have and \
                    any(bits(value(c)) == bits(numpy_helper.to_array(t)) for t, _ in tensors(plain)):
                raise Violation("%s: constant %s is not in the package" % (what, c["name"]))
        return Info(n > 0, [c["dtype"] for c in spec["consts"]] + [c["place"] for c in spec["consts"]] + ["%d-external" % min(n, 6), spec["path"]], evals=2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def describe(spec):
    return {"opset": spec["opset"], "path": spec["path"], "consts": [{k: c[k] for k in ("dtype", "shape", "place", "how", "name")} for c in spec["consts"]]}


# ------------------------------------------------------------------ any ONNX model

def gen_model(d):
    spec = onnxgen.gen(d)
    spec["threshold"] = d.choice([0, 1, 2, 3, 4, 6, 8, 12])
    spec["typed"] = d.prob(30)
    spec["opt"] = d.prob(50)
    return spec


def typed_fields(model):
    for t, _ in tensors(model):
        if t.raw_data and t.data_type != TensorProto.STRING:
            a = numpy_helper.to_array(t)
            vals = a.reshape(-1).tolist() if t.data_type != TensorProto.FLOAT16 else a.reshape(-1)
            u = onnx.helper.make_tensor(t.name, t.data_type, list(t.dims), vals)
            t.CopyFrom(u)


def run_model(spec):
    from tf2onnx import optimizer
    from tf2onnx.graph import ExternalTensorStorage, GraphUtil
    model = onnxgen.build(spec)
    if spec["typed"]:
        typed_fields(model)
    try:
        onnx.checker.check_model(model, full_check=True)
        feeds = onnxgen.feeds(spec)
        prog.session(model.SerializeToString()).run(None, feeds)
    except Exception as e:  # noqa: BLE001
        raise Reject("not a model which runs: %s" % str(e)[-200:])
    what = "model of %d nodes, threshold %d%s" % (len(spec["nodes"]), spec["threshold"], ", data in typed fields" if spec["typed"] else "")

    try:
        g = GraphUtil.create_graph_from_onnx_model(model)
        if spec["opt"]:
            g = optimizer.optimize_graph(g)
        g.make_model("verif")   # (what only dead nodes of bodies take is dropped by the second export)
        plain = g.make_model("verif")
        refs = prog.session(plain.SerializeToString()).run(None, feeds)
    except Exception as e:  # noqa: BLE001
        raise Reject("C11, C12: %s" % str(e)[-200:])
    storage = ExternalTensorStorage()
    storage.external_tensor_size_threshold = spec["threshold"]
    big = g.make_model("verif", external_tensor_storage=storage)
    from tf2onnx import utils
    scratch = tempfile.mkdtemp(prefix="verif_c24_")
    try:
        target = os.path.join(scratch, "p.zip")
        utils.save_onnx_zip(target, big, storage)
        loaded, n = load_package(target, os.path.join(scratch, "un"), spec["threshold"], what, storage, big)

        def all_of(m):
            return {bits(numpy_helper.to_array(t)) for t, _ in tensors(m)}
        if all_of(loaded) != all_of(plain):
            raise Violation("%s: the tensors restored are not those of the ordinary model" % what)
        got = run_session(loaded.SerializeToString(), feeds, what)
        for o, r, y in zip(plain.graph.output, refs, got):
            m = prog.diff(r, y)
            if m:
                raise Violation("%s: output %s: %s" % (what, o.name, m))
        round_trips(big, storage, scratch, feeds, what)
        return Info(n > 0, ["threshold%d" % spec["threshold"], "%d-external" % min(n, 6)] + (["typed"] if spec["typed"] else []))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SUITES = [
    Suite("packages", gen, run, quick=400, describe=describe),
    Suite("models", gen_model, run_model, quick=2500, describe=lambda s: {"opset": s["opset"], "threshold": s["threshold"], "nodes": [n["op"] for n in s["nodes"]]}),
]
