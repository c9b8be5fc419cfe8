"""Random programs with control flow: blocks of statements over an SSA environment (C07).

Kinds: v float32 [3], s int32 scalar, b bool scalar, m float32 [rows, 3].  A nested block sees the environment of
the enclosing one (captured values) followed by its own parameters.
"""
import numpy as np
import tensorflow as tf

import prog
from core import Info, Reject, Violation

K = 3
ELEM = {
    # name: (argument kinds, result kind)
    "add": ("vv", "v"), "mulv": ("vv", "v"), "tanh": ("v", "v"), "halve": ("v", "v"), "sub": ("vv", "v"), "rev": ("v", "v"),
    "fill": ("s", "v"), "shift": ("vs", "v"), "where": ("bvv", "v"),
    "sadd": ("ss", "s"), "sinc": ("s", "s"), "smin": ("ss", "s"), "rows": ("m", "s"), "b2s": ("b", "s"),
    "lt": ("ss", "b"), "eq": ("ss", "b"), "pos": ("v", "b"), "and": ("bb", "b"), "not": ("b", "b"),
    "maddv": ("mv", "m"), "mscale": ("m", "m"), "msum": ("m", "v"), "push": ("mv", "m"), "single": ("v", "m"),
    "tail": ("m", "m"), "cat": ("mm", "m"), "iconst": ("", "s"), "vconst": ("", "v"), "bconst": ("", "b"),
}


def elem(op, c, a):
    if op == "add":
        return (a[0] + a[1]) * 0.5
    if op == "mulv":
        return tf.tanh(a[0] * a[1])
    if op == "tanh":
        return tf.tanh(a[0])
    if op == "halve":
        return a[0] * 0.5 + c
    if op == "sub":
        return (a[0] - a[1]) * 0.5
    if op == "rev":
        return tf.gather(a[0], [2, 0, 1])
    if op == "fill":
        return tf.fill([K], tf.cast(a[0], tf.float32) * 0.25)
    if op == "shift":
        return a[0] * 0.5 + tf.cast(a[1], tf.float32) * 0.1
    if op == "where":
        return tf.where(a[0], a[1], a[2])
    if op == "sadd":
        return tf.math.floormod(a[0] + a[1], 5)
    if op == "sinc":
        return tf.math.floormod(a[0] + 1, 5)
    if op == "smin":
        return tf.minimum(a[0], a[1])
    if op == "rows":
        return tf.minimum(tf.shape(a[0])[0], 4)
    if op == "b2s":
        return tf.cast(a[0], tf.int32)
    if op == "lt":
        return a[0] < a[1]
    if op == "eq":
        return tf.equal(a[0], a[1])
    if op == "pos":
        return tf.reduce_sum(a[0]) > 0.0317
    if op == "and":
        return tf.logical_and(a[0], a[1])
    if op == "not":
        return tf.logical_not(a[0])
    if op == "maddv":
        return (a[0] + a[1]) * 0.5
    if op == "mscale":
        return a[0] * 0.5
    if op == "msum":
        return tf.tanh(tf.reduce_sum(a[0], axis=0))
    if op == "push":
        return tf.concat([a[0][:5], a[1][None]], 0)
    if op == "single":
        return a[0][None]
    if op == "tail":
        return a[0][1:]
    if op == "cat":
        return tf.concat([a[0][:3], a[1][:3]], 0)
    if op == "iconst":
        return tf.constant(c, tf.int32)
    if op == "vconst":
        return tf.constant(c, tf.float32)
    if op == "bconst":
        return tf.constant(c)
    raise AssertionError(op)


SHAPE = {"v": [K], "s": [], "b": [], "m": [None, K]}
DT = {"v": tf.float32, "s": tf.int32, "b": tf.bool, "m": tf.float32}


def run_block(block, env):
    env = list(env)
    for st in block["st"]:
        env += run_stmt(st, env)
    return [env[r] for r in block["out"]]


ZERO_TRIPS = []     # arrays without elements seen while running eagerly


def seen(n):
    if tf.executing_eagerly() and int(n) == 0:
        ZERO_TRIPS.append(1)


def run_stmt(st, env):
    op = st["op"]
    if op in ("map", "scan", "fold") or (op == "taloop" and st["x"] is not None):
        seen(tf.shape(env[st["x"]])[0])
    elif op == "taloop":
        seen(env[st["n"]])
    if op in ELEM:
        return [elem(op, st.get("c"), [env[r] for r in st["a"]])]
    if op == "cond":
        return list(tf.cond(env[st["p"]], lambda: run_block(st["t"], env), lambda: run_block(st["f"], env)))
    if op == "while":
        init = [tf.constant(st["start"], tf.int32)] + [env[r] for r in st["init"]]
        limit = env[st["limit"]] if st["limit"] is not None else tf.constant(st["n"], tf.int32)

        def cond(i, *vs):
            c = i < limit
            if st.get("cond"):
                c = tf.logical_and(c, run_block(st["cond"], list(env) + [i] + list(vs))[0])
            return c

        def body(i, *vs):
            out = run_block(st["body"], list(env) + [i] + list(vs))
            return [i + 1] + out
        kw = {}
        if st.get("max") is not None:
            kw["maximum_iterations"] = st["max"] if isinstance(st["max"], int) else env[st["max"][0]]
        inv = [tf.TensorShape(SHAPE[k]) for k in ["s"] + st["kinds"]]
        r = tf.while_loop(cond, body, init, shape_invariants=inv, **kw)
        return list(r)
    if op == "map":
        x = env[st["x"]]
        return [tf.map_fn(lambda v: run_block(st["body"], list(env) + [tf.reshape(v, [K])])[0], x)]
    if op == "scan":
        x, z = env[st["x"]], env[st["z"]]
        return [tf.scan(lambda acc, v: run_block(st["body"], list(env) + [acc, tf.reshape(v, [K])])[0], x, initializer=z,
                        reverse=False)]
    if op == "fold":
        x, z = env[st["x"]], env[st["z"]]
        f = tf.foldr if st.get("right") else tf.foldl
        return [f(lambda acc, v: run_block(st["body"], list(env) + [acc, tf.reshape(v, [K])])[0], x, initializer=z)]
    if op == "taloop":
        # reads rows of x, writes one row of each output per iteration
        n_out = st["n_out"]
        if st["x"] is not None:
            x = env[st["x"]]
            n = tf.shape(x)[0]
            src = tf.TensorArray(tf.float32, size=n, element_shape=[K]).unstack(x)
        else:
            n = env[st["n"]]
            src = None
        tas = tuple(tf.TensorArray(tf.float32, size=n, element_shape=[K]) for _ in range(n_out))
        z = env[st["z"]]

        def body(i, acc, tas):
            args = [i, acc] + ([src.read(i)] if src is not None else [])
            out = run_block(st["body"], list(env) + args)
            return i + 1, out[0], tuple(ta.write(i, o) for ta, o in zip(tas, out[1:]))
        i, acc, tas = tf.while_loop(lambda i, acc, tas: i < n, body, [tf.constant(0, tf.int32), z, tas])
        return [i, acc] + [ta.stack() for ta in tas]
    if op == "call":
        if st.get("fn") is None:
            b = st["body"]
            f = tf.function(lambda *a: run_block(b, list(a)), autograph=False)
            args = [env[r] for r in st["a"]]
            if tf.executing_eagerly() or st.get("v1"):
                return run_block(b, args) + (run_block(b, [env[r] for r in st["a2"]]) if st.get("a2") else [])
            return list(f(*args)) + (list(f(*[env[r] for r in st["a2"]])) if st.get("a2") else [])
    raise AssertionError(op)


# ------------------------------------------------------------------ drawing

class Draw:
    def __init__(self, d, v1=False, allow=("cond", "while", "map", "scan", "fold", "taloop", "call")):
        self.d, self.v1, self.allow = d, v1, allow
        self.used = []
        self.inside = 0

    def ref(self, kinds, k, recent=True):
        c = [i for i, x in enumerate(kinds) if x == k]
        if not c:
            return None
        # favour recent values so that nested blocks use what they computed, but reach back too
        if recent and self.d.bool():
            return c[-1 - min(self.d.int(0, 2), len(c) - 1)]
        return self.d.choice(c)

    def need(self, kinds, st, k):
        """A reference of kind k, creating a value when there is none."""
        r = self.ref(kinds, k)
        if r is None:
            d = self.d
            if k == "v":
                st.append({"op": "vconst", "a": [], "c": [d.int(-4, 4) * 0.25 for _ in range(K)]})
            elif k == "s":
                st.append({"op": "iconst", "a": [], "c": d.int(0, 3)})
            elif k == "b":
                s1, s2 = self.need(kinds, st, "s"), self.need(kinds, st, "s")
                st.append({"op": "lt", "a": [s1, s2]})
            else:
                st.append({"op": "single", "a": [self.need(kinds, st, "v")]})
            kinds.append(k)
            r = len(kinds) - 1
        return r

    def elem(self, kinds, st, want=None):
        d = self.d
        pool = [(3 if k in ("add", "mulv", "tanh", "sub", "shift", "push") else 1, k) for k in ELEM if want is None or ELEM[k][1] == want]
        op = d.weighted(pool)
        args = [self.need(kinds, st, k) for k in ELEM[op][0]]
        s = {"op": op, "a": args}
        if op == "halve":
            s["c"] = d.int(-2, 2) * 0.125
        elif op == "iconst":
            s["c"] = d.int(0, 3)
        elif op == "vconst":
            s["c"] = [d.int(-4, 4) * 0.25 for _ in range(K)]
        elif op == "bconst":
            s["c"] = d.bool()
        st.append(s)
        kinds.append(ELEM[op][1])

    def block(self, kinds, outs, depth, n=None, params=0):
        """A block over environment kinds producing the kinds outs; params: how many of kinds are loop variables."""
        d = self.d
        first = len(kinds) - params
        kinds, st = list(kinds), []
        for _ in range(d.int(0, 3) if n is None else n):
            if depth > 0 and d.prob(40):
                self.compound(kinds, st, depth - 1)
            else:
                self.elem(kinds, st)
        res = []
        for k in outs:
            if self.v1:
                # The rewriters for Switch/Merge graphs need results that are computed in the loop (from one of its
                # variables) or branch.
                own = [i for i in range(first, first + params) if kinds[i] == k]
                r = d.choice(own) if own else self.need(kinds, st, k)
                st.append({"op": {"v": "add", "s": "sadd", "b": "and", "m": "cat"}[k], "a": [r, self.need(kinds, st, k)]})
                kinds.append(k)
                res.append(len(kinds) - 1)
            elif d.prob(35):
                self.elem(kinds, st, k)
                res.append(len(kinds) - 1)
            else:
                res.append(self.need(kinds, st, k))
        return {"st": st, "out": res}

    def v1_cond(self, kinds, st, depth):
        d = self.d
        self.used.append("cond")
        self.elem(kinds, st, "b")
        p = len(kinds) - 1
        outs = [d.choice("vvs") for _ in range(d.int(1, 2))]
        depth = min(depth, 1) - 1
        st.append({"op": "cond", "p": p, "t": self.block(kinds, outs, depth), "f": self.block(kinds, outs, depth)})
        kinds += outs

    def compound(self, kinds, st, depth):
        self.inside += 1
        try:
            self.compound_(kinds, st, depth)
        finally:
            self.inside -= 1

    def compound_(self, kinds, st, depth):
        d = self.d
        if self.v1 and self.inside > 1:
            return self.elem(kinds, st) if depth < 0 else self.v1_cond(kinds, st, depth)
        op = d.weighted([(w, k) for w, k in ((5, "cond"), (6, "while"), (2, "map"), (2, "scan"), (1, "fold"), (3, "taloop"), (1, "call"))
                         if k in self.allow])
        self.used.append(op)
        if op == "cond" and self.v1:
            self.used.pop()
            self.v1_cond(kinds, st, depth)
        elif op == "cond":
            p = self.need(kinds, st, "b") if d.bool() else None
            if p is None:
                self.elem(kinds, st, "b")
                p = len(kinds) - 1
            outs = [d.choice("vvsmb") for _ in range(d.int(1, 3))]
            s = {"op": "cond", "p": p, "t": self.block(kinds, outs, depth), "f": self.block(kinds, outs, depth)}
            st.append(s)
            kinds += outs
        elif op == "while":
            kk = [d.choice("vvvsm") for _ in range(d.int(0, 3))]
            init = [self.need(kinds, st, k) for k in kk]
            limit = self.need(kinds, st, "s") if d.prob(75) else None
            inner = kinds + ["s"] + kk
            s = {"op": "while", "init": init, "kinds": kk, "limit": limit, "n": d.int(0, 4), "start": d.choice([0, 0, 1]),
                 "body": self.block(inner, kk, depth, params=len(kk) + 1), "cond": self.block(inner, ["b"], 0) if d.prob(30) and not self.v1 else None}
            if d.prob(25) and not self.v1:
                s["max"] = d.int(0, 4) if d.bool() else [self.need(kinds, st, "s")]
            st.append(s)
            kinds += ["s"] + kk
        elif op == "map":
            x = self.need(kinds, st, "m")
            st.append({"op": "map", "x": x, "body": self.block(kinds + ["v"], ["v"], depth, params=1)})
            kinds.append("m")
        elif op in ("scan", "fold"):
            x, z = self.need(kinds, st, "m"), self.need(kinds, st, "v")
            st.append({"op": op, "x": x, "z": z, "body": self.block(kinds + ["v", "v"], ["v"], depth, params=2)})
            kinds.append("m" if op == "scan" else "v")
        elif op == "taloop":
            x = self.need(kinds, st, "m") if d.bool() else None
            n = self.need(kinds, st, "s")
            z = self.need(kinds, st, "v")
            n_out = d.int(0, 2) if x is not None else d.int(1, 2)
            inner = kinds + ["s", "v"] + (["v"] if x is not None else [])
            st.append({"op": "taloop", "x": x, "n": n, "z": z, "n_out": n_out,
                       "body": self.block(inner, ["v"] * (1 + n_out), depth, params=len(inner) - len(kinds))})
            kinds += ["s", "v"] + ["m"] * n_out
        elif op == "call":
            ks = [d.choice("vsm") for _ in range(d.int(1, 2))]
            a = [self.need(kinds, st, k) for k in ks]
            outs = [d.choice("vsm") for _ in range(d.int(1, 2))]
            s = {"op": "call", "a": a, "body": self.block(ks, outs, depth), "v1": self.v1}
            if d.bool():
                s["a2"] = [self.ref(kinds, k) for k in ks]
            st.append(s)
            kinds += outs * (2 if s.get("a2") else 1)


def gen(d, v1=False, allow=None, depth=2):
    opset = d.choice([18, 18, 17, 16, 15, 14, 13, 13, 12, 11])
    kinds = ["v", "v", "s", "s", "b", "m"]
    dr = Draw(d, v1, allow or ("cond", "while", "map", "scan", "fold", "taloop", "call"))
    k, st = list(kinds), []
    for _ in range(d.int(0, 1)):
        dr.elem(k, st)
    for _ in range(d.int(1, 3)):
        dr.compound(k, st, d.int(0, depth))
        if d.bool():
            dr.elem(k, st)
    first = len(kinds)
    n = len(k)
    cand = list(range(first, n))
    outs = sorted(set([n - 1] + d.subset(cand, 1, 4)))
    feeds = []
    for _ in range(3):
        feeds.append({"seed": d.seed(), "s": [d.int(0, 4), d.int(0, 4)], "b": d.bool(), "rows": d.int(0, 4)})
    zero = v1 and d.avoid("v1-loop-zero-trip-scan-shape", True)
    return {"opset": opset, "v1": v1, "zero": zero, "kinds": kinds, "prog": {"st": st, "out": outs}, "feeds": feeds,
            "used": dr.used, "ident": d.bool()}


def feed_values(spec):
    out = []
    for f in spec["feeds"]:
        r = np.random.RandomState(f["seed"])
        out.append([r.randn(K).astype(np.float32), r.randn(K).astype(np.float32), np.int32(f["s"][0]), np.int32(f["s"][1]),
                    np.bool_(f["b"]), r.randn(f["rows"], K).astype(np.float32)])
    return out


def zero_trip(prog_, vs):
    """An array is written in a loop which these inputs do not run at all."""
    ZERO_TRIPS.clear()
    try:
        run_block(prog_, [tf.constant(v) for v in vs])
    except (tf.errors.OpError, ValueError):
        if not ZERO_TRIPS:      # (running eagerly, an array without elements loses its shape)
            raise
    return bool(ZERO_TRIPS)


def run(spec, hook=None):
    prog_, opset = spec["prog"], spec["opset"]
    kinds = spec["kinds"]
    names = ["in%d" % i for i in range(len(kinds))]
    vals = feed_values(spec)
    specs = [tf.TensorSpec(SHAPE[k], DT[k], name=n) for k, n in zip(kinds, names)]

    def fn(*a):
        a = list(a)
        return [tf.identity(x) for x in run_block(prog_, a)]
    f = tf.function(fn, autograph=False)
    refs = []
    try:
        f.get_concrete_function(*specs)
        for vs in vals:
            refs.append([x.numpy() for x in f(*[tf.constant(v) for v in vs])])
    except (tf.errors.OpError, ValueError, TypeError) as e:
        raise Reject("TensorFlow refuses: %s" % str(e)[:300])
    what = "control flow %s" % "/".join(spec["used"])
    if spec["v1"]:
        g = tf.Graph()
        cf = tf.compat.v1.control_flow_v2_enabled()
        try:
            tf.compat.v1.disable_control_flow_v2()
            with g.as_default():
                ph = [tf.compat.v1.placeholder(DT[k], SHAPE[k], name=n) for k, n in zip(kinds, names)]
                try:
                    outs = [tf.identity(x, name="out%d" % i) for i, x in enumerate(run_block(prog_, ph))]
                except (ValueError, TypeError) as e:
                    raise Reject(str(e)[:300])
        finally:
            if cf:
                tf.compat.v1.enable_control_flow_v2()
        try:
            import tf2onnx
            model, _ = tf2onnx.convert.from_graph_def(g.as_graph_def(), input_names=[n + ":0" for n in names],
                                                      output_names=["out%d:0" % i for i in range(len(outs))], opset=opset)
        except Exception as e:  # noqa: BLE001
            if "_output_shapes attribute inconsistent" in str(e):
                raise Reject("TensorFlow cannot re-import this graph: a loop variable changes its static shape")
            raise Violation("conversion failed for %s: %s: %s" % (what, type(e).__name__, str(e)[:700]))
        names = [n + ":0" for n in names]
    else:
        model = prog.convert_checked(f, specs, opset, what)
    have = {i.name for i in model.graph.input}
    if hook:
        use = [vs for vs in vals if not (spec.get("zero") and zero_trip(prog_, vs))]
        return hook(model, [{n: np.asarray(v) for n, v in zip(names, vs) if n in have} for vs in use], what)
    try:
        sess = prog.session(model.SerializeToString())
    except Exception as e:  # noqa: BLE001
        if spec["v1"] and "No Op registered for Merge" in str(e) and (spec["used"].count("cond") > 1 or const_branch(prog_)):
            raise Reject("TensorFlow's optimiser merged (parts of) conditionals, which is refused loudly")
        raise Violation("the converted model does not load for %s: %s" % (what, str(e)[:700]))
    decided = 0
    for vs, ref, f in zip(vals, refs, spec["feeds"]):
        if spec.get("zero") and zero_trip(prog_, vs):
            continue
        decided += 1
        feeds = {n: np.asarray(v) for n, v in zip(names, vs) if n in have}
        try:
            got = sess.run(None, feeds)
        except Exception as e:  # noqa: BLE001
            raise Violation("the converted model does not run for %s, feed %s: %s" % (what, f, str(e)[:700]))
        for i, (r, x) in enumerate(zip(ref, got)):
            m = prog.diff(r, x)
            if m:
                raise Violation("output %d with feed %s at opset %d, %s: %s" % (i, f, opset, what, m))
    return Info(decided > 0, spec["used"] + ["opset%d" % opset, "v1" if spec["v1"] else "v2", "depth%d" % depth_of(prog_)],
                evals=decided)


def const_branch(b):
    """Some branch of a cond uses none of the values around it, or both do the same with them."""
    for s in b["st"]:
        if s["op"] == "cond":
            if s["t"] == s["f"] or any(x["op"] in ("iconst", "vconst", "bconst") for k in "tf" for x in s[k]["st"]):
                return True
        if any(isinstance(s.get(k), dict) and const_branch(s[k]) for k in ("t", "f", "body", "cond")):
            return True
    return False


def depth_of(b):
    m = 0
    for s in b["st"]:
        for k in ("t", "f", "body", "cond"):
            if isinstance(s.get(k), dict):
                m = max(m, 1 + depth_of(s[k]))
    return m


def describe(spec):
    return {"opset": spec["opset"], "v1": spec["v1"], "used": spec["used"], "prog": spec["prog"], "feeds": spec["feeds"]}
