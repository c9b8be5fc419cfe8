"""Random ONNX models which did not come from the converter: JSON specs and their ModelProtos."""
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

F, D_, H, I32, I64, U8, I8, B = "float32", "float64", "float16", "int32", "int64", "uint8", "int8", "bool"
ELEM = {"float32": 1, "float64": 11, "float16": 10, "int32": 6, "int64": 7, "uint8": 2, "int8": 3, "bool": 9}
NHWC2NCHW = {3: [0, 2, 1], 4: [0, 3, 1, 2], 5: [0, 4, 1, 2, 3]}
NCHW2NHWC = {3: [0, 2, 1], 4: [0, 2, 3, 1], 5: [0, 2, 3, 4, 1]}


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = [1] * (n - len(a)) + list(a), [1] * (n - len(b)) + list(b)
    out = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            return None
        out.append(y if x == 1 else x)
    return out


def inv(p):
    out = [0] * len(p)
    for i, x in enumerate(p):
        out[x] = i
    return out


class T:
    """A tensor of the program."""

    def __init__(self, name, dtype, shape, const=False, hot=False):
        self.name, self.dtype, self.shape, self.const = name, dtype, list(shape), const
        self.bounded = True
        self.perm = None     # of the transpose that made it


class Scope:
    def __init__(self, d, opset, parent=None, names=None):
        self.d, self.opset, self.parent = d, opset, parent
        self.names = names if names is not None else {"n": 0}
        self.pool, self.nodes, self.consts = [], [], []

    def new(self, prefix=None):
        self.names["n"] += 1
        n = self.names["n"]
        style = self.names.get("style", 0)
        p = prefix or "t"
        return {0: "%s%d", 1: "%s_%d:0", 2: "a/b/%s__%d"}[style] % (p, n)

    # ---- constants
    def const(self, dtype, shape, kind=None, value=None, share=True):
        if value is None and share and self.d.prob(25):
            same = [t for t in self.pool if t.const and t.dtype == dtype and t.shape == list(shape)]
            if same:
                return self.d.choice(same)
        name = self.new("c")
        c = {"name": name, "dtype": dtype, "shape": list(shape), "how": self.d.choice(["init", "init", "init", "node"])}
        if value is not None:
            c["value"] = value
        else:
            c["seed"] = self.d.seed()
            c["kind"] = kind or self.d.choice(["half", "half", "normal", "ones", "zeros"] if dtype in (F, D_, H) else ["small"])
        self.consts.append(c)
        t = T(name, dtype, shape, True)
        if value is None:
            self.pool.append(t)
        return t

    def ints(self, values, dtype=I64, shape=None):
        v = list(values) if shape is None else values
        if self.d.prob(20):
            for c in self.consts:
                if c.get("value") == v and c["dtype"] == dtype and c["shape"] == ([len(v)] if shape is None else shape):
                    return T(c["name"], dtype, c["shape"], True)
        return self.const(dtype, [len(v)] if shape is None else shape, value=v)

    # ---- nodes
    def node(self, op, ins, outs, attrs=None, dom="", perm=None):
        """outs: [(dtype, shape)]; returns the tensors."""
        res = [T(self.new(), dt, sh) for dt, sh in outs]
        self.nodes.append({"op": op, "in": [i if isinstance(i, str) else i.name for i in ins], "out": [r.name for r in res],
                           "attrs": attrs or {}, "dom": dom, "name": self.new("n") if not self.d.prob(7) else ""})
        if perm:
            res[0].perm = perm
        self.pool += res
        return res

    def visible(self):
        return self.pool + (self.parent.visible() if self.parent else [])

    def pick(self, ok=lambda t: True, recent=60):
        own = [t for t in self.pool if ok(t) and not t.const]
        if own and self.d.prob(recent):
            return own[-1 - min(self.d.int(0, 2), len(own) - 1)]
        pool = [t for t in self.visible() if ok(t)]
        if not pool:
            return None
        return self.d.choice(pool)


def numeric(t):
    return t.dtype in (F, D_, I32, I64, H)


def fl(t):
    return t.dtype == F


def size(t):
    return int(np.prod(t.shape)) if t.shape else 1


# ---------------------------------------------------------------- operators

def transpose(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: len(t.shape) >= 2 and t.dtype != H)
    if x is None or not x.shape:
        return None
    r = len(x.shape)
    how = d.int(0, 9)
    if x.perm and how < 3:
        p = inv(x.perm)
    elif r in NHWC2NCHW and how < 8:
        p = (NHWC2NCHW if d.bool() else NCHW2NHWC)[r]
    elif how == 8:
        p = list(range(r))[::-1]
        if d.bool():
            return s.node("Transpose", [x], [(x.dtype, [x.shape[i] for i in p])], {}, perm=p)[0]
    else:
        p = d.perm(r)
    return s.node("Transpose", [x], [(x.dtype, [x.shape[i] for i in p])], {"perm": p}, perm=p)[0]


UNARY = ["Relu", "Abs", "Neg", "Sigmoid", "Tanh", "LeakyRelu", "Elu", "Selu", "Softplus", "Erf", "Identity", "Identity", "Clip", "Dropout",
         "Sqrt", "Log", "Reciprocal", "Exp", "Cast", "Cast", "Floor", "Sign", "HardSigmoid", "Ceil", "Softsign", "Not", "ThresholdedRelu"]


def unary(s, x=None, op=None):
    d = s.d
    op = op or d.choice(UNARY)
    if op == "Cast":
        x = x or s.pick(lambda t: t.dtype != H)
        if x is None:
            return None
        to = d.choice([F, F, I32, I64, D_, B, H, U8] if x.dtype in (F, D_) else [F, F, I64, I32, D_])
        return s.node("Cast", [x], [(to, x.shape)], {"to": ELEM[to]})[0]
    if op == "Not":
        x = s.pick(lambda t: t.dtype == B)
        return x and s.node(op, [x], [(B, x.shape)])[0]
    if op == "Identity":
        x = x or s.pick()
        return x and s.node(op, [x], [(x.dtype, x.shape)])[0]
    if op in ("Abs", "Neg", "Relu", "Sign"):
        x = x or s.pick(lambda t: t.dtype in (F, D_, I32) or (t.dtype == I64 and op != "Relu"))
    else:
        x = x or s.pick(fl)
    if x is None or not numeric(x):
        return None
    if op in ("Sqrt", "Log", "Reciprocal"):
        y = s.node("Abs", [x], [(x.dtype, x.shape)])[0]
        if op != "Sqrt":
            y = s.node("Add", [y, s.const(F, [], value=1.5)], [(F, x.shape)])[0]
        return s.node(op, [y], [(F, x.shape)])[0]
    if op == "Exp":
        y = s.node("Tanh", [x], [(x.dtype, x.shape)])[0]
        return s.node("Exp", [y], [(F, x.shape)])[0]
    if op == "Clip":
        lo = s.const(F, [], value=d.choice([-1.0, 0.0, -0.5])) if d.prob(80) else ""
        hi = s.const(F, [], value=d.choice([1.0, 6.0, 0.5])) if d.prob(80) else ""
        ins = [x, lo, hi]
        if hi == "":
            ins = ins[:2]
            if lo == "":
                ins = ins[:1]
        return s.node("Clip", ins, [(F, x.shape)])[0]
    if op == "Dropout":
        outs = [(F, x.shape)] + ([(B, x.shape)] if d.prob(30) else [])
        ins = [x] if d.bool() else [x, s.const(F, [], value=0.4)]
        return s.node("Dropout", ins, outs)[0]
    attrs = {"LeakyRelu": {"alpha": d.choice([0.1, 0.3, 2.0])}, "Elu": {"alpha": d.choice([1.0, 0.5])}}.get(op, {})
    return s.node(op, [x], [(x.dtype, x.shape)], attrs if d.prob(80) else {})[0]


BINARY = ["Add", "Add", "Mul", "Mul", "Sub", "Div", "Max", "Min", "Sum", "PRelu", "Pow", "Greater", "Equal", "Where", "And", "Mod", "Max3"]


def bcast_shape(d, shape):
    """A shape which broadcasts with `shape`."""
    r = len(shape)
    k = d.int(0, 9)
    if k == 0:
        return []
    if k == 1:
        return [1]
    if k == 2 and r:
        return [shape[-1]]
    if k == 3 and r > 1:
        return [1, shape[1]] + [1] * (r - 2)
    if k == 4 and r > 1:
        return [shape[1]] + [1] * (r - 2)
    if k == 5:
        return [1] * d.int(1, 5)
    if k == 6 and r:
        i = d.int(0, r - 1)
        return [shape[j] if j == i else 1 for j in range(r)]
    if k == 7 and r:
        return [1] + [x if d.bool() else 1 for x in shape]
    if k == 8 and r:
        return [x if d.bool() else 1 for x in shape]
    return list(shape)


def binary(s, x=None, op=None, const=None):
    d = s.d
    op = op or d.choice(BINARY)
    x = x or s.pick(lambda t: t.dtype in (F, D_, I32, I64) if op != "And" else t.dtype == B)
    if x is None:
        return None
    if op == "Mod" and x.dtype not in (I32, I64):
        op = "Add"
    if op in ("Div", "Pow", "PRelu") and x.dtype != F:
        op = "Mul"
    if op == "Sum" and x.dtype != F:
        op = "Add"
    how = d.int(0, 9) if const is None else (9 if const else 0)
    y = None
    if op == "PRelu":
        sh = bcast_shape(d, x.shape)
        sh = sh[-len(x.shape):] if x.shape else []
        if bshape(sh, x.shape) != x.shape:
            sh = []
        y = s.const(F, sh)
        return s.node("PRelu", [x, y], [(F, x.shape)])[0]
    if how < 4:
        y = s.pick(lambda t: t.dtype == x.dtype and bshape(t.shape, x.shape) is not None, recent=30)
    if y is None:
        sh = bcast_shape(d, x.shape)
        if bshape(sh, x.shape) is None:
            sh = []
        y = s.const(x.dtype, sh, kind={"Div": "nonzero", "Mod": "nonzero", "Pow": "two"}.get(op), share=op not in ("Div", "Mod", "Pow")) \
            if op != "And" else s.const(B, sh, kind="bool")
        if size(y) > 4000:
            return None
    elif op in ("Div", "Mod", "Pow"):
        op = "Mul"
    if op == "Mod" or op == "Div" or op == "Pow":
        return s.node(op, [x, y], [(x.dtype, bshape(x.shape, y.shape))])[0]
    out = bshape(x.shape, y.shape)
    a, b = (x, y) if d.prob(65) else (y, x)
    if op in ("Greater", "Equal"):
        return s.node(op, [a, b], [(B, out)])[0]
    if op == "And":
        return s.node(op, [a, b], [(B, out)])[0]
    if op == "Where":
        c = s.const(B, bcast_shape(d, out) if d.bool() else [], kind="bool")
        o2 = bshape(out, c.shape)
        if o2 is None:
            return None
        return s.node("Where", [c, a, b], [(x.dtype, o2)])[0]
    if op == "Max3":
        z = s.const(x.dtype, [])
        return s.node(d.choice(["Max", "Min"] + (["Sum"] if x.dtype == F else [])), d.choice([[a, b, z], [z, a, b], [a, z, b]]), [(x.dtype, out)])[0]
    return s.node(op, [a, b], [(x.dtype, out)])[0]


def axes_of(d, r, lo=1):
    ax = sorted(d.subset(range(r), lo, r))
    if d.prob(30):
        ax = ax[::-1]
    return ax, [a - r if d.prob(35) else a for a in ax]


def reduced(shape, ax, keep):
    return [1 if i in ax else n for i, n in enumerate(shape) if keep or i not in ax]


REDUCE = ["ReduceMean", "ReduceMean", "ReduceSum", "ReduceSum", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceLogSumExp", "ReduceSumSquare",
          "ReduceL2", "ReduceL1", "ReduceLogSum"]


def reduce(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: fl(t) and len(t.shape) > 0)
    if x is None or not x.shape or not size(x):
        return None
    op = d.choice(REDUCE)
    if op == "ReduceLogSum":
        x = s.node("Abs", [x], [(F, x.shape)])[0]
        x = s.node("Add", [x, s.const(F, [], value=1.0)], [(F, x.shape)])[0]
    r = len(x.shape)
    ax, given = axes_of(d, r)
    if r == 4 and d.prob(35):
        ax, given = d.choice([([2, 3], [2, 3]), ([1, 2], [1, 2]), ([1], [1]), ([2, 3], [-2, -1]), ([3], [-1])])
    attrs = {}
    keep = 1
    if d.prob(75):
        keep = attrs["keepdims"] = d.int(0, 1)
    as_input = s.opset >= 18 or (op == "ReduceSum" and s.opset >= 13)
    ins = [x]
    if d.prob(10):
        if as_input and d.bool():
            attrs["noop_with_empty_axes"] = 1
            out = x.shape
            if d.bool():
                ins.append(s.ints([]))
            if op in ("ReduceSumSquare", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp"):
                return None     # (the runtime disagrees about reductions over no axes)
        else:
            out = reduced(x.shape, list(range(r)), keep)
    else:
        out = reduced(x.shape, ax, keep)
        if as_input:
            ins.append(s.ints(given))
        else:
            attrs["axes"] = given
    return s.node(op, ins, [(F, out)], attrs)[0]


def argmax(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: fl(t) and len(t.shape) > 0)
    if x is None or not x.shape or not size(x):
        return None
    r = len(x.shape)
    a = d.int(-r, r - 1)
    attrs = {"axis": a}
    keep = 1
    if d.prob(75):
        keep = attrs["keepdims"] = d.int(0, 1)
    if d.prob(20):
        attrs["select_last_index"] = 1
    return s.node(d.choice(["ArgMax", "ArgMin"]), [x], [(I64, reduced(x.shape, [a % r], keep))], attrs)[0]


def concat(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: len(t.shape) > 0 and t.dtype in (F, I64, I32))
    if x is None:
        return None
    r = len(x.shape)
    if not r:
        return None
    a = d.int(-r, r - 1)
    parts = [x]
    for _ in range(d.int(1, 2)):
        y = s.pick(lambda t: t.dtype == x.dtype and len(t.shape) == r and all(t.shape[i] == x.shape[i] for i in range(r) if i != a % r), 40) if d.prob(70) else None
        if y is None:
            sh = list(x.shape)
            sh[a % r] = d.int(1, 3)
            y = s.const(x.dtype, sh)
        parts.append(y)
    if d.bool():
        parts = parts[::-1]
    out = list(x.shape)
    out[a % r] = sum(p.shape[a % r] for p in parts)
    if int(np.prod(out)) > 4000:
        return None
    return s.node("Concat", parts, [(x.dtype, out)], {"axis": a})[0]


def split(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: any(n >= 2 for n in t.shape) and t.dtype in (F, I64, I32))
    if x is None or not any(n >= 2 for n in x.shape):
        return None
    r = len(x.shape)
    a = d.choice([i for i in range(r) if x.shape[i] >= 2])
    n = x.shape[a]
    k = d.int(2, min(n, 3))
    attrs = {} if a == 0 and d.bool() else {"axis": a - r if d.prob(30) else a}
    ins = [x]
    if d.prob(60):
        cuts = sorted(d.subset(range(1, n), k - 1, k - 1))
        sizes = [b - c for b, c in zip(cuts + [n], [0] + cuts)]
        ins.append(s.ints(sizes))
        if s.opset >= 18 and False:
            attrs["num_outputs"] = k
    elif n % k == 0 or s.opset >= 18:
        if s.opset >= 18:
            attrs["num_outputs"] = k
        c = -(-n // k)
        sizes = [c] * (k - 1) + [n - c * (k - 1)]
        if sizes[-1] <= 0:
            return None
    else:
        return None
    outs = []
    for z in sizes:
        sh = list(x.shape)
        sh[a] = z
        outs.append((x.dtype, sh))
    return s.node("Split", ins, outs, attrs)[0]


def pad(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: fl(t) and len(t.shape) > 0)
    if x is None:
        return None
    r = len(x.shape)
    mode = d.choice(["constant", "constant", "reflect", "edge"])
    axes = None
    n = r
    if s.opset >= 18 and d.prob(30):
        axes = sorted(d.subset(range(r), 1, r))
        n = len(axes)
    lims = [x.shape[i] - 1 if mode == "reflect" else 2 for i in (axes or range(r))]
    before = [d.int(0, min(2, max(0, m))) for m in lims]
    after = [d.int(0, min(2, max(0, m))) for m in lims]
    if mode == "constant" and r and d.prob(10):
        before[0] = -min(1, x.shape[(axes or range(r))[0]] - 1)
    out = list(x.shape)
    for k, i in enumerate(axes or range(r)):
        out[i] += before[k] + after[k]
    ins = [x, s.ints(before + after)]
    if mode == "constant" and d.prob(60):
        ins.append(s.const(F, [], value=d.choice([0.0, 1.5])))
    elif axes is not None:
        ins.append("")
    if axes is not None:
        ins.append(s.ints([a - r if d.prob(25) else a for a in axes]))
    if int(np.prod(out)) > 4000:
        return None
    return s.node("Pad", ins, [(F, out)], {} if mode == "constant" and d.bool() else {"mode": mode})[0]


def slice_(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: len(t.shape) > 0 and t.dtype in (F, I64, I32))
    if x is None or not x.shape:
        return None
    r = len(x.shape)
    given_axes = d.prob(75)
    axes = sorted(d.subset(range(r), 1, r)) if given_axes else list(range(d.int(1, r)))
    if given_axes and d.prob(25):
        axes = axes[::-1]
    steps_given = d.prob(50) and given_axes
    st, en, ste, out = [], [], [], list(x.shape)
    for a in axes:
        n = x.shape[a]
        step = d.choice([1, 1, 2, -1]) if steps_given else 1
        lo = d.int(0, max(0, n - 1))
        hi = d.int(lo + 1, n) if n else 0
        if step < 0:
            b, e = hi - 1, lo - 1
            out[a] = len(range(n)[slice(b, None if e < 0 else e, step)])
            e = -n - 1 if e < 0 else e
        else:
            b, e = lo, hi
            out[a] = len(range(n)[slice(b, e, step)])
            if e == n and d.prob(40):
                e = d.choice([2**31 - 1, 2**63 - 1, n])
            elif e < n and d.prob(25):
                e -= n
            if d.prob(20):
                b -= n
        st.append(b)
        en.append(e)
        ste.append(step)
    ins = [x, s.ints(st), s.ints(en)]
    if given_axes:
        ins.append(s.ints([a - r if d.prob(25) else a for a in axes]))
    if steps_given:
        ins.append(s.ints(ste))
    return s.node("Slice", ins, [(x.dtype, out)])[0]


def squeeze(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: 1 in t.shape)
    if x is None or 1 not in x.shape:
        return None
    r = len(x.shape)
    ones = [i for i, n in enumerate(x.shape) if n == 1]
    if d.prob(20):
        return s.node("Squeeze", [x], [(x.dtype, [n for n in x.shape if n != 1])])[0]
    ax = d.subset(ones, 1)
    if d.prob(25):
        ax = ax[::-1]
    return s.node("Squeeze", [x, s.ints([a - r if d.prob(35) else a for a in ax])], [(x.dtype, [n for i, n in enumerate(x.shape) if i not in ax])])[0]


def unsqueeze(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: len(t.shape) < 5)
    if x is None or len(x.shape) >= 5:
        return None
    k = d.int(1, min(2, 5 - len(x.shape)))
    r = len(x.shape) + k
    ax = d.subset(range(r), k, k)
    if d.prob(25):
        ax = ax[::-1]
    rest = list(x.shape)
    out = [1 if i in ax else rest.pop(0) for i in range(r)]
    return s.node("Unsqueeze", [x, s.ints([a - r if d.prob(35) else a for a in ax])], [(x.dtype, out)])[0]


def reshape(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: size(t) > 0)
    if x is None or not size(x):
        return None
    n = size(x)
    out, rest = [], n
    for _ in range(d.int(0, 3)):
        divs = [k for k in range(1, rest + 1) if rest % k == 0]
        f = d.choice(divs)
        out.append(f)
        rest //= f
    out.append(rest)
    if n == 1 and d.prob(15):
        out = []
    if d.prob(35) and len(x.shape) < 5:
        out = list(x.shape)      # (nearly) the same shape
        if d.bool() and out:
            i = d.int(0, len(out))
            out.insert(i, 1)
    given = list(out)
    if given and n:
        if d.prob(40):
            given[d.int(0, len(given) - 1)] = -1
        for i in range(min(len(given), len(x.shape))):
            if given[i] != -1 and given[i] == x.shape[i] and d.prob(30):
                given[i] = 0
    attrs = {}
    if 0 not in given and d.prob(10):
        attrs["allowzero"] = d.int(0, 1)
    if s.opset < 14:
        attrs = {}
    return s.node("Reshape", [x, s.ints(given)], [(x.dtype, out)], attrs)[0]


def dyn_reshape(s, x=None):
    """A reshape to a shape computed from the tensor's own."""
    d = s.d
    x = x or s.pick(lambda t: fl(t) and len(t.shape) >= 2)
    if x is None or len(x.shape) < 2:
        return None
    r = len(x.shape)
    sh = s.node("Shape", [x], [(I64, [r])])[0]
    k = d.int(0, 3)
    if k == 0:
        g = s.node("Gather", [sh, s.ints([0])], [(I64, [1])])[0]
        out = [x.shape[0], size(x) // max(1, x.shape[0])]
        if size(x) == 0:
            return None
        to = s.node("Concat", [g, s.ints([-1])], [(I64, [2])], {"axis": 0})[0]
    elif k == 1:
        i = d.int(0, r - 1)
        first = s.node("Slice", [sh, s.ints([i]), s.ints([i + 1])], [(I64, [1])])[0]
        to = s.node("Concat", [s.ints([-1]), first], [(I64, [2])], {"axis": 0})[0]
        if size(x) == 0:
            return None
        out = [size(x) // x.shape[i], x.shape[i]]
    elif k == 2:
        p = d.perm(r)
        to = s.node("Gather", [sh, s.ints(p)], [(I64, [r])], {"axis": 0})[0]
        out = [x.shape[i] for i in p]
    else:
        f = s.node("Cast", [sh], [(F, [r])], {"to": 1})[0]
        to = s.node("Cast", [f], [(I64, [r])], {"to": 7})[0]
        one = s.node("Concat", [to, s.ints([1])], [(I64, [r + 1])], {"axis": 0})[0]
        if r > 4:
            return None
        to, out = one, list(x.shape) + [1]
    return s.node("Reshape", [x, to], [(x.dtype, out)])[0]


def shape_op(s, x=None):
    d = s.d
    x = x or s.pick(lambda t: t.dtype in (F, I64))
    if x is None:
        return None
    r = len(x.shape)
    if d.prob(15):
        return s.node("Size", [x], [(I64, [])])[0]
    attrs, n = {}, r
    if s.opset >= 15 and d.prob(35):
        b = d.int(-r, r) if r else 0
        attrs["start"] = b
        e = r
        if d.bool():
            attrs["end"] = e = d.int(-r, r) if r else 0
        n = max(0, len(range(r)[slice(b, e)]))
    return s.node("Shape", [x], [(I64, [n])], attrs)[0]


def misc(s, x=None):
    d = s.d
    k = d.choice(["Tile", "Tile", "Gather", "Flatten", "Softmax", "Softmax", "LogSoftmax", "Expand", "MatMul", "Gemm", "CumSum", "TopK", "Einsum",
                  "ConstantOfShape", "Range", "OneHot", "DepthToSpace"])
    if k == "ConstantOfShape":
        sh = [d.int(1, 4) for _ in range(d.int(1, 3))]
        return s.node(k, [s.ints(sh)], [(F, sh)], {"value": {"tensor": [0.5 if d.bool() else 2.0], "dtype": F, "shape": [1]}})[0]
    x = x or s.pick(fl)
    if x is None or x.dtype != F:
        return None
    r = len(x.shape)
    if k == "Tile" and r:
        reps = [d.choice([1, 1, 2, 3]) for _ in range(r)]
        out = [a * b for a, b in zip(x.shape, reps)]
        return s.node("Tile", [x, s.ints(reps)], [(F, out)])[0] if np.prod(out) < 4000 else None
    if k == "Gather" and r:
        a = d.int(-r, r - 1)
        n = x.shape[a % r]
        if not n:
            return None
        ish = d.choice([[], [1], [2], [2, 2]])
        idx = s.const(I64, ish, value=np.array([d.int(-n, n - 1) for _ in range(int(np.prod(ish)) if ish else 1)]).reshape(ish).tolist())
        return s.node("Gather", [x, idx], [(F, x.shape[:a % r] + ish + x.shape[a % r + 1:])], {"axis": a} if a or d.bool() else {})[0]
    if k == "Flatten":
        a = d.int(-r, r)
        a2 = a + r if a < 0 else a
        return s.node("Flatten", [x], [(F, [int(np.prod(x.shape[:a2])) if a2 else 1, int(np.prod(x.shape[a2:])) if a2 < r else 1])], {"axis": a})[0]
    if k in ("Softmax", "LogSoftmax") and r:
        return s.node(k, [x], [(F, x.shape)], {"axis": d.int(-r, r - 1)} if d.prob(80) else {})[0]
    if k == "Expand":
        sh = bcast_shape(d, x.shape)
        out = bshape(sh, x.shape)
        return out is not None and s.node("Expand", [x, s.ints(sh)], [(F, out)])[0] or None
    if k == "MatMul" and r >= 2:
        n = d.int(1, 3)
        lead = x.shape[:-2] if d.bool() else []
        w = s.const(F, lead + [x.shape[-1], n])
        return s.node("MatMul", [x, w], [(F, x.shape[:-1] + [n])])[0]
    if k == "Gemm" and r == 2:
        n = d.int(1, 3)
        tb = d.int(0, 1)
        w = s.const(F, [n, x.shape[1]] if tb else [x.shape[1], n])
        ins = [x, w] + ([s.const(F, d.choice([[n], [1, n], [], [x.shape[0], n]]))] if d.bool() else [])
        return s.node("Gemm", ins, [(F, [x.shape[0], n])], {"transB": tb, "alpha": d.choice([1.0, 0.5])})[0]
    if k == "CumSum" and r:
        return s.node("CumSum", [x, s.ints(d.int(-r, r - 1), shape=[])], [(F, x.shape)], {"reverse": d.int(0, 1)})[0]
    if k == "TopK" and r and x.shape[-1] > 1:
        m = d.int(1, x.shape[-1])
        v, i = s.node("TopK", [x, s.ints([m])], [(F, x.shape[:-1] + [m]), (I64, x.shape[:-1] + [m])])
        return v
    if k == "OneHot" and r <= 3:
        i = s.node("Cast", [x], [(I64, x.shape)], {"to": 7})[0]
        return s.node("OneHot", [i, s.ints(3, shape=[]), s.const(F, [2])], [(F, x.shape + [3])])[0]
    if k == "DepthToSpace" and r == 4 and x.shape[1] % 4 == 0:
        n, c, h, w = x.shape
        return s.node(k, [x], [(F, [n, c // 4, h * 2, w * 2])], {"blocksize": 2})[0]
    if k == "Einsum" and 2 <= r <= 3:
        n = d.int(1, 3)
        w = s.const(F, [x.shape[-1], n])
        eq = {2: d.choice(["ab,bc->ac", "ab,bc->ca", "ab,bc->a", "ab,bc->abc", "ij,jk"]), 3: d.choice(["abc,cd->abd", "abc,cd->adb", "abc,cd->bd"])}[r]
        lhs, _, rhs = eq.partition("->")
        rhs = rhs or "ik"
        l1, l2 = lhs.split(",")
        dims = dict(zip(l1, x.shape))
        dims.update(zip(l2, w.shape))
        return s.node("Einsum", [x, w], [(F, [dims[c] for c in rhs])], {"equation": eq})[0]
    return None


def nn(s, x=None):
    d = s.d
    k = d.choice(["Conv", "Conv", "Conv", "MaxPool", "AveragePool", "BatchNormalization", "BatchNormalization", "GlobalAveragePool", "InstanceNormalization",
                  "ConvTranspose", "Resize", "GlobalMaxPool", "LRN"])
    x = x or s.pick(lambda t: fl(t) and len(t.shape) == 4 and min(t.shape) > 0)
    if x is None or x.dtype != F or len(x.shape) != 4 or min(x.shape) < 1:
        return None
    n, c, h, w = x.shape
    if k == "Conv":
        co, kh, kw = d.int(1, 3), d.int(1, min(3, h)), d.int(1, min(3, w))
        wt = s.const(F, [co, c, kh, kw])
        if d.prob(25):      # a weight that is transposed or reshaped
            raw = s.const(F, [kh, kw, c, co])
            wt = s.node("Transpose", [raw], [(F, [co, c, kh, kw])], {"perm": [3, 2, 0, 1]})[0]
        ins = [x, wt] + ([s.const(F, [co])] if d.bool() else [])
        pads = [0, 0, 0, 0] if d.bool() else [d.int(0, 1) for _ in range(4)]
        st = d.int(1, 2)
        out = [n, co, (h + pads[0] + pads[2] - kh) // st + 1, (w + pads[1] + pads[3] - kw) // st + 1]
        return s.node("Conv", ins, [(F, out)], {"kernel_shape": [kh, kw], "pads": pads, "strides": [st, st]})[0]
    if k == "ConvTranspose":
        co = d.int(1, 2)
        return s.node(k, [x, s.const(F, [c, co, 2, 2])], [(F, [n, co, h * 2, w * 2])], {"strides": [2, 2]})[0]
    if k in ("MaxPool", "AveragePool"):
        kh, kw = d.int(1, min(2, h)), d.int(1, min(2, w))
        return s.node(k, [x], [(F, [n, c, h - kh + 1, w - kw + 1])], {"kernel_shape": [kh, kw]})[0]
    if k == "BatchNormalization":
        a = [s.const(F, [c]) for _ in range(3)] + [s.const(F, [c], kind="pos", share=False)]
        return s.node(k, [x] + a, [(F, x.shape)])[0]
    if k in ("GlobalAveragePool", "GlobalMaxPool"):
        return s.node(k, [x], [(F, [n, c, 1, 1])])[0]
    if k == "InstanceNormalization":
        return s.node(k, [x, s.const(F, [c]), s.const(F, [c])], [(F, x.shape)])[0]
    if k == "Resize":
        sc = d.choice([1.0, 2.0])
        if d.bool():
            sizes = [n, c, int(h * sc), int(w * sc)]
            return s.node(k, [x, "", "", s.ints(sizes)], [(F, sizes)], {"mode": "nearest", "coordinate_transformation_mode": "asymmetric", "nearest_mode": "floor"})[0]
        return s.node(k, [x, "", s.const(F, [4], value=[1.0, 1.0, sc, sc])], [(F, [n, c, int(h * sc), int(w * sc)])],
                      {"mode": "nearest", "coordinate_transformation_mode": "asymmetric", "nearest_mode": "floor"})[0]
    if k == "LRN":
        return s.node(k, [x], [(F, x.shape)], {"size": 3})[0]
    return None


def quant(s, x=None):
    """Quantize/dequantize pairs, constants dequantised."""
    d = s.d
    dt = d.choice([U8, I8])
    scale = d.choice([0.5, 0.25, 0.1, 1.0])
    zp = d.int(0, 20) if dt == U8 else d.int(-10, 10)
    if d.prob(25):
        c = s.const(dt, [d.int(1, 4), d.int(1, 4)] if d.bool() else [1, 2, 2, 3], kind="int8")
        per = d.prob(30)
        axis = d.int(0, len(c.shape) - 1)
        sh = [c.shape[axis]] if per else []
        ins = [c, s.const(F, sh, kind="pos", share=False)] + ([s.const(dt, sh, kind="int8")] if d.prob(70) else [])
        return s.node("DequantizeLinear", ins, [(F, c.shape)], {"axis": axis} if per else {})[0]
    x = x or s.pick(lambda t: fl(t))
    if x is None or x.dtype != F:
        return None
    r = len(x.shape)
    per = r > 0 and d.prob(30)
    attrs, sh = {}, []
    if per:
        axis = d.int(-r, r - 1)
        if axis != 1 or d.bool():
            attrs["axis"] = axis
        sh = [x.shape[axis % r]]
        if not sh[0]:
            return None
    sc = s.const(F, sh, value=[scale * (i + 1) for i in range(sh[0])] if sh else scale)
    z = s.const(dt, sh, value=[zp + i for i in range(sh[0])] if sh else zp)
    with_zp = dt == I8 or d.prob(80)
    q = s.node("QuantizeLinear", [x, sc] + ([z] if with_zp else []), [(dt, x.shape)], attrs)[0]
    y = q
    if d.prob(40):
        if d.bool():
            y = transpose(s, q) or q
        else:
            y = reshape(s, q) or q
    if per and y is not q:
        return q
    if d.prob(25):
        sc = s.const(F, sh, value=[scale * 2 * (i + 1) for i in range(sh[0])] if sh else scale * 2)
    f = s.node("DequantizeLinear", [y, sc] + ([z] if with_zp else []), [(F, y.shape)], attrs)[0]
    if d.prob(50) and not per:
        # a second pair right behind
        if d.prob(25):
            z = s.const(dt, sh, value=zp + 1)
        q2 = s.node("QuantizeLinear", [f, sc] + ([z] if with_zp else []), [(dt, f.shape)], attrs)[0]
        return s.node("DequantizeLinear", [q2, sc] + ([z] if with_zp else []), [(F, f.shape)], attrs)[0]
    return f


def duplicate(s, x=None):
    """Another node which does (nearly) the same as an earlier one."""
    d = s.d
    ok = [n for n in s.nodes if not any(isinstance(v, dict) and "graph" in v for v in n["attrs"].values()) and n["op"] not in ("Split",)]
    if not ok:
        return None
    n = d.choice(ok)
    table = {t.name: t for t in s.pool}
    outs = [table[o] for o in n["out"] if o in table]
    if len(outs) != len(n["out"]):
        return None
    attrs = dict(n["attrs"])
    op = n["op"]
    if d.prob(30) and op in ("Relu", "Tanh", "Sigmoid", "Abs", "Neg", "Elu"):
        op = d.choice(["Relu", "Tanh", "Sigmoid"] if outs[0].dtype == F else ["Abs", "Neg"])
        attrs = {}
    res = s.node(op, n["in"], [(o.dtype, o.shape) for o in outs], attrs, n["dom"])
    if outs[0].perm:
        res[0].perm = outs[0].perm
    return res[0]


def const_expr(s, x=None):
    """Something computed from constants only."""
    d = s.d
    a = s.const(d.choice([F, F, I64, I32]), d.shape(1, 4, dim=4))
    t = a
    for _ in range(d.int(1, 3)):
        k = d.choice([transpose, unary, binary, reshape, squeeze, unsqueeze, concat, split])
        if k is unary:
            t2 = unary(s, t, "Cast")
        elif k is binary:
            t2 = binary(s, t, d.choice(["Add", "Mul", "Sub"]), const=True)
        elif k is transpose:
            t2 = transpose(s, t) if len(t.shape) > 1 else None
        else:
            t2 = k(s, t)
        t = t2 or t
        if t.dtype in (B, H, U8):
            break
    if t.dtype == F and d.prob(70):
        y = s.pick(lambda q: fl(q) and bshape(q.shape, t.shape) is not None and not q.const)
        if y is not None and int(np.prod(bshape(y.shape, t.shape))) < 4000:
            return s.node(d.choice(["Add", "Mul"]), [y, t], [(F, bshape(y.shape, t.shape))])[0]
    return t


def sandwich(s, x=None):
    """transpose - operators - inverse transpose"""
    d = s.d
    x = x or s.pick(lambda t: fl(t) and len(t.shape) in (3, 4, 5))
    if x is None or x.dtype != F or len(x.shape) not in (3, 4, 5):
        return None
    p = (NHWC2NCHW if d.bool() else NCHW2NHWC)[len(x.shape)]
    y = s.node("Transpose", [x], [(F, [x.shape[i] for i in p])], {"perm": p}, perm=p)[0]
    for _ in range(d.int(1, 3)):
        k = d.choice([unary, unary, binary, binary, binary, concat, split, pad, slice_, misc, reduce, squeeze, unsqueeze, argmax, shape_op, nn, quant])
        y2 = k(s, y)
        if y2 is not None and y2.dtype == F:
            y = y2
    if len(y.shape) == len(p) and d.prob(75):
        q = inv(p)
        y = s.node("Transpose", [y], [(F, [y.shape[i] for i in q])], {"perm": q}, perm=q)[0]
    return y


def control(s, x=None):
    d = s.d
    if s.parent is not None and s.parent.parent is not None:
        return None
    x = s.pick(lambda t: fl(t) and size(t) > 0)
    if x is None or not size(x):
        return None
    k = d.choice(["If", "Loop", "Loop", "LoopT"])
    if k == "If":
        c = s.pick(lambda t: t.dtype == B and t.shape == [])
        if c is None:
            c = s.const(B, [], value=d.bool()) if d.prob(30) else None
        if c is None:
            m = s.node("ReduceMax", [x], [(F, [])], {"keepdims": 0})[0]
            c = s.node("Greater", [m, s.const(F, [], value=0.5)], [(B, [])])[0]
        want = [(F, d.choice([x.shape, x.shape, []])) for _ in range(d.int(1, 2))]
        graphs = []
        for _ in range(2):
            b = Scope(d, s.opset, s, s.names)
            grow(b, d.int(0, 3))
            graphs.append(finish_body(b, want, x))
        return s.node("If", [c], want, {"then_branch": {"graph": graphs[0]}, "else_branch": {"graph": graphs[1]}})[0]
    nscans = d.int(0, 2)
    trip = d.int(1 if nscans else 0, 3)   # (scan outputs of no iterations have no agreed shape)
    nvars = d.int(1, 2)
    vars_ = [x] + [s.pick(fl) for _ in range(nvars - 1)]
    b = Scope(d, s.opset, s, s.names)
    it, ci = T(b.new("it"), I64, []), T(b.new("cond"), B, [])
    vin = [T(b.new("v"), F, v.shape) for v in vars_]
    b.pool += vin
    b.pool.append(it)
    grow(b, d.int(1, 4))
    outs = [(F, v.shape) for v in vars_]
    scans = []
    for _ in range(nscans):
        t = b.pick(lambda t: t.dtype in (F, I64) and not t.const and t in b.pool)
        if t is None:
            break
        if len(t.shape) >= 2 and d.prob(60):
            t = transpose(b, t) or t
        if t not in [z for z, _ in scans] and t.name != it.name and t not in vin:
            scans.append((t, (t.dtype, [trip] + t.shape)))
    g = finish_body(b, outs, vin[0], scan=[t for t, _ in scans])
    g["inputs"] = [{"name": it.name, "dtype": I64, "shape": []}, {"name": ci.name, "dtype": B, "shape": []}] + \
                  [{"name": v.name, "dtype": F, "shape": v.shape} for v in vin]
    cname = b.new("condout")
    g["nodes"].append({"op": "Identity", "in": [ci.name], "out": [cname], "attrs": {}, "dom": "", "name": b.new("n")})
    g["outputs"] = [{"name": cname, "dtype": B, "shape": []}] + g["outputs"]
    m = s.ints(trip, shape=[])
    cond = s.const(B, [], value=True) if d.bool() else ""
    return s.node("Loop", [m, cond] + vars_, outs + [z for _, z in scans], {"body": {"graph": g}})[0]


def finish_body(b, want, fallback, scan=()):
    """Makes the outputs a body must have."""
    d = b.d
    outs = []
    for dt, sh in want:
        t = b.pick(lambda t: t.dtype == dt and t.shape == list(sh))
        if t is None:
            t = fallback if fallback.dtype == dt and fallback.shape == list(sh) else None
        if t is None:
            m = b.node("ReduceMean", [fallback], [(F, [])], {"keepdims": 0})[0]
            t = m if sh == [] else b.node("Add", [b.const(F, sh, share=False), m], [(F, list(sh))])[0]
        # an output of its own, small values
        t = b.node(d.choice(["Tanh", "Tanh", "Identity"]) if not d.prob(20) else "Relu", [t], [(dt, list(sh))])[0]
        outs.append({"name": t.name, "dtype": dt, "shape": list(sh)})
    for t in scan:
        outs.append({"name": t.name, "dtype": t.dtype, "shape": t.shape})
    return {"inputs": [], "consts": b.consts, "nodes": b.nodes, "outputs": outs}


EMIT = [(8, transpose), (5, unary), (6, binary), (3, reduce), (1, argmax), (3, concat), (2, split), (2, pad), (2, slice_), (2, squeeze), (2, unsqueeze),
        (4, reshape), (2, dyn_reshape), (2, shape_op), (4, misc), (4, nn), (3, quant), (3, duplicate), (4, const_expr), (8, sandwich), (2, control)]


def grow(s, n, emit=EMIT):
    for _ in range(n):
        f = s.d.weighted(emit)
        f(s)


def gen(d, emit=EMIT, opsets=(18, 18, 17, 16, 15, 14, 13), steps=(2, 9)):
    opset = d.choice(opsets)
    s = Scope(d, opset, None, {"n": 0, "style": d.choice([0, 0, 1, 2])})
    inputs = []
    for i in range(d.int(1, 3)):
        sh = d.choice([[1, 2, 3, 4], [2, 3, 3, 2], [1, 4, 2, 3], [2, 3, 4], [2, 3], [1, 2, 2, 2, 3], [1, 3, 1, 1], [3], [1, 1, 4, 2]]) if d.prob(80) else d.shape(0, 4, dim=4)
        t = T(s.new("x"), F if d.prob(90) else d.choice([I64, I32]), sh)
        s.pool.append(t)
        inputs.append({"name": t.name, "dtype": t.dtype, "shape": t.shape, "unknown": [d.prob(30) for _ in sh] if d.prob(40) else [], "seed": d.seed()})
    grow(s, d.int(*steps), emit)
    used = {i for n in walk_nodes(s.nodes) for i in n["in"]} | set(body_outputs(s.nodes))
    made = [t for t in s.pool if not t.const and t.name not in {i["name"] for i in inputs}]
    outs = [t for t in made if t.name not in used]
    if len(outs) > 4:
        outs = d.subset(outs, 1, 4)
    inner = [t for t in made if t.name in used]
    if inner and d.prob(40):
        outs += d.subset(inner, 1, 2)
    if not outs:
        outs = s.node("Identity", [s.pool[0]], [(s.pool[0].dtype, s.pool[0].shape)])
    if d.prob(30):
        outs = [outs[i] for i in d.perm(len(outs))]
    return {"opset": opset, "inputs": inputs, "consts": s.consts, "nodes": s.nodes,
            "outputs": [{"name": t.name, "dtype": t.dtype, "shape": t.shape} for t in outs]}


def subgraphs(n):
    return [v["graph"] for v in n["attrs"].values() if isinstance(v, dict) and "graph" in v]


def walk_nodes(nodes):
    for n in nodes:
        yield n
        for g in subgraphs(n):
            yield from walk_nodes(g["nodes"])


def body_outputs(nodes):
    for n in nodes:
        for g in subgraphs(n):
            yield from (o["name"] for o in g["outputs"])
            yield from body_outputs(g["nodes"])


# ---------------------------------------------------------------- building

def const_array(c):
    if "value" in c:
        return np.array(c["value"], dtype=c["dtype"]).reshape(c["shape"])
    r = np.random.RandomState(c["seed"])
    n = int(np.prod(c["shape"])) if c["shape"] else 1
    k = c["kind"]
    a = {"half": lambda: r.randint(-6, 7, n) * 0.5, "normal": lambda: r.randn(n), "ones": lambda: np.ones(n), "zeros": lambda: np.zeros(n),
         "small": lambda: r.randint(-4, 5, n), "nonzero": lambda: r.randint(1, 5, n) * r.choice([-1, 1], n), "two": lambda: np.full(n, 2),
         "bool": lambda: r.randint(0, 2, n), "pos": lambda: r.uniform(0.2, 2.0, n), "int8": lambda: r.randint(0, 100, n)}[k]()
    return a.astype(c["dtype"]).reshape(c["shape"])


def make_graph(g, name, top=False):
    inits, nodes = [], []
    for c in g["consts"]:
        t = numpy_helper.from_array(const_array(c), c["name"])
        if c["how"] == "init":
            inits.append(t)
        else:
            nodes.append(helper.make_node("Constant", [], [c["name"]], name="", value=t))
    for n in g["nodes"]:
        attrs = {}
        for k, v in n["attrs"].items():
            if isinstance(v, dict) and "graph" in v:
                v = make_graph(v["graph"], k)
            elif isinstance(v, dict) and "tensor" in v:
                v = numpy_helper.from_array(np.array(v["tensor"], v["dtype"]).reshape(v["shape"]), "value")
            attrs[k] = v
        nodes.append(helper.make_node(n["op"], n["in"], n["out"], name=n["name"], domain=n["dom"] or None, **attrs))

    def info(v, unknown=None, shape=True):
        sh = None
        if shape:
            sh = ["d_%s_%d" % (v["name"], i) if unknown and unknown[i] else x for i, x in enumerate(v["shape"])]
        return helper.make_tensor_value_info(v["name"], ELEM[v["dtype"]], sh)
    anyunknown = top and any(any(i.get("unknown") or []) for i in g["inputs"])
    outs = [info(o, [True] * len(o["shape"]) if anyunknown else None, True) for o in g["outputs"]]
    return helper.make_graph(nodes, name, [info(i, i.get("unknown")) for i in g["inputs"]], outs, inits)


def build(spec):
    g = make_graph(spec, "verif", True)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", spec["opset"])], producer_name="verif")
    m.ir_version = 8
    return m


def feeds(spec, salt=0):
    out = {}
    for i in spec["inputs"]:
        r = np.random.RandomState(i["seed"] + salt)
        n = int(np.prod(i["shape"])) if i["shape"] else 1
        a = r.randint(-8, 9, n) * 0.25 if i["dtype"] == F else r.randint(-5, 6, n)
        out[i["name"]] = a.astype(i["dtype"]).reshape(i["shape"])
    return out
