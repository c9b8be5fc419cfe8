"""Element-wise, comparison, cast, selection, activation, cumulative and reduction operators (C01)."""
import tensorflow as tf

from prog import BOOL, F16, F32, F64, FLOATS, I8, I16, I32, I64, U8, U16, U32, U64, cell, t, val, is_float

FD = (F32, F32, F32, F64, F16)


def sh(d, zero=True, lo=0, hi=4):
    return d.shape(lo, hi, zero=zero, dim=4)


def bcast(d, shape):
    """A shape that broadcasts with `shape`."""
    s = list(shape)
    how = d.int(0, 4)
    if how == 0:
        return s
    if how == 1 and s:
        i = d.int(0, len(s) - 1)
        s[i] = 1
    elif how == 2 and s:
        s = s[d.int(1, len(s)):]
    elif how == 3:
        s = [1 if d.prob(40) else x for x in s]
        s = s[d.int(0, len(s)):] if s and d.bool() else s
    elif how == 4:
        s = []
    return s


def pair(d, dtype, kind_a=None, kind_b=None, **kw):
    a = sh(d)
    b = bcast(d, a)
    if d.bool():
        a, b = b, a
    return [t(d, a, dtype, kind_a, **kw), t(d, b, dtype, kind_b, **kw)]


def unary(name, op, kind=None, dtypes=(F32, F32, F64), minop=9, **kw):
    @cell(name, "C01 math", minop=minop, **kw)
    def g(d, opset):
        dt = d.choice(dtypes)
        return {"ins": [t(d, sh(d), dt, d.choice(kind) if isinstance(kind, (list, tuple)) else kind)]}

    @g.builds
    def b(p, x):
        return op(x)


NUM = (F32, F32, F64, I32, I64)
unary("Abs", tf.abs, dtypes=NUM)
unary("Ceil", tf.math.ceil, kind=["half", "normal"])
unary("Floor", tf.math.floor, kind=["half", "normal"])
unary("Round", tf.round, kind=["half", "normal", "big"], minop=11, dtypes=(F32, F64))
unary("Rint", tf.math.rint, kind=["half", "normal", "big"], minop=11, dtypes=(F32, F64))
unary("Exp", tf.exp)
unary("Log", tf.math.log, kind="pos")
unary("Neg", tf.negative, dtypes=NUM)
unary("Relu", tf.nn.relu, dtypes=(F32, F32, F64))
unary("Relu6", tf.nn.relu6, kind="big", dtypes=(F32, F64))
unary("Elu", tf.nn.elu, dtypes=(F32,))
unary("Selu", tf.nn.selu, dtypes=(F32,))
unary("Sigmoid", tf.sigmoid, dtypes=(F32,))
unary("Tanh", tf.tanh, dtypes=(F32,))
unary("Sqrt", tf.sqrt, kind="pos")
unary("Rsqrt", tf.math.rsqrt, kind="pos")
unary("Square", tf.square, dtypes=NUM)
unary("Reciprocal", tf.math.reciprocal, kind="nonzero")
unary("Softplus", tf.nn.softplus, dtypes=(F32,))
unary("Softsign", tf.nn.softsign, dtypes=(F32,))
unary("Sin", tf.sin, dtypes=(F32,))
unary("Cos", tf.cos, dtypes=(F32,))
unary("Tan", tf.tan, kind="unit", dtypes=(F32,))
unary("Asin", tf.asin, kind="unit", dtypes=(F32,))
unary("Acos", tf.acos, kind="unit", dtypes=(F32,))
unary("Atan", tf.atan, dtypes=(F32,))
unary("Sinh", tf.sinh, dtypes=(F32,))
unary("Cosh", tf.cosh, dtypes=(F32,))
unary("Asinh", tf.asinh, dtypes=(F32,))
unary("Atanh", tf.atanh, kind="unit", dtypes=(F32,))
unary("Erf", tf.math.erf, dtypes=(F32,), tol=(1e-3, 1e-5))
unary("Sign", tf.sign, kind=["small", "half", "normal"], dtypes=(F32, F64))
unary("SignInt", tf.sign, kind=["int"], dtypes=(I32, I64))
unary("Invert", tf.bitwise.invert, kind="wide", dtypes=(I32, I64, U8, I8, I16), minop=18)
unary("IsNan", tf.math.is_nan, kind=["special", "normal"], dtypes=(F32, F64))
unary("IsInf", tf.math.is_inf, kind=["special", "normal"], minop=10, dtypes=(F32, F64))
unary("IsFinite", tf.math.is_finite, kind=["special", "normal"], minop=10, dtypes=(F32, F64))
unary("ZerosLike", tf.zeros_like, dtypes=(F32, F64, I32, I64))
unary("OnesLike", tf.ones_like, dtypes=(F32, F64, I32, I64))
unary("LogicalNot", tf.logical_not, kind="bool", dtypes=(BOOL,))
unary("Identity", tf.identity, dtypes=(F32, I32, I64, BOOL, F64))
unary("StopGradient", tf.stop_gradient)
unary("HardSwishLike", lambda x: x * tf.nn.relu6(x + 3.0) / 6.0, kind="big", dtypes=(F32,))
unary("Swish", tf.nn.silu, dtypes=(F32,))
unary("Gelu", tf.nn.gelu, dtypes=(F32,), tol=(1e-3, 1e-4))
unary("GeluApprox", lambda x: tf.nn.gelu(x, approximate=True), dtypes=(F32,), tol=(1e-3, 1e-4))
unary("Mish", lambda x: x * tf.tanh(tf.nn.softplus(x)), dtypes=(F32,))
unary("CheckNumerics", lambda x: tf.debugging.check_numerics(x, "m"), dtypes=(F32,))
unary("ReluHalf", tf.nn.relu, dtypes=(F16,))
unary("ExpHalf", tf.exp, dtypes=(F16,), tol=(2e-2, 1e-2))
unary("Log1p", tf.math.log1p, kind="pos", dtypes=(F32,)) if False else None
unary("L2Normalize", lambda x: tf.nn.l2_normalize(x, axis=-1), kind="normal", dtypes=(F32,)) if False else None


@cell("LeakyRelu", "C01 math")
def g(d, opset):
    return {"ins": [t(d, sh(d), F32)], "alpha": d.choice([0.2, 0.01, 0.0, 0.5, 1.5, d.float(0, 2)])}


@g.builds
def _(p, x):
    return tf.nn.leaky_relu(x, alpha=p["alpha"])


def binary(name, op, dtypes, kind_a=None, kind_b=None, minop=9, tol=None, groups="C01 math", **kw):
    @cell(name, groups, minop=minop, tol=tol)
    def g(d, opset):
        dt = d.choice(dtypes)
        ka = d.choice(kind_a) if isinstance(kind_a, (list, tuple)) else kind_a
        kb = d.choice(kind_b) if isinstance(kind_b, (list, tuple)) else kind_b
        return {"ins": pair(d, dt, ka, kb, **kw)}

    @g.builds
    def b(p, x, y):
        return op(x, y)


binary("Add", tf.add, (F32, F32, F64, I32, I64))
binary("AddV2Raw", lambda x, y: tf.raw_ops.Add(x=x, y=y), (F32, I32))
binary("Sub", tf.subtract, (F32, F32, F64, I32, I64))
binary("Mul", tf.multiply, (F32, F32, F64, I32, I64))
binary("RealDiv", lambda x, y: tf.raw_ops.RealDiv(x=x, y=y), (F32, F64), None, "nonzero")
binary("TruncateDiv", lambda x, y: tf.raw_ops.TruncateDiv(x=x, y=y), (I32, I64), "int", "nonzero")
binary("DivRawInt", lambda x, y: tf.raw_ops.Div(x=x, y=y), (I32, I64), "int", "nonzero")
binary("DivNoNan", tf.math.divide_no_nan, (F32, F64), ["small", "normal"], "small")
binary("FloorDivInt", tf.math.floordiv, (I32, I64), "int", "nonzero")
binary("FloorDivFloat", tf.math.floordiv, (F32, F64), ["half", "normal"], "nonzero")
binary("FloorModInt", tf.math.floormod, (I32, I64), "int", "nonzero")
binary("FloorModFloat", tf.math.floormod, (F32, F32, F64), ["half", "small"], "nonzero")
binary("Pow", tf.pow, (F32, F32, F64), "pos", ["small", "half", "normal"], tol=(1e-3, 1e-4))
binary("PowInt", tf.pow, (I32, I64), "small", "value3") if False else None
binary("Maximum", tf.maximum, (F32, F32, F64, I32, I64))
binary("Minimum", tf.minimum, (F32, F32, F64, I32, I64))
binary("SquaredDifference", tf.math.squared_difference, (F32, F64, I32, I64))
binary("Atan2", tf.atan2, (F32,), ["small", "normal"], ["small", "normal", "nonzero"])
binary("LogicalAnd", tf.logical_and, (BOOL,))
binary("LogicalOr", tf.logical_or, (BOOL,))
binary("LogicalXor", tf.math.logical_xor, (BOOL,))
CMP = (F32, F32, F64, I32, I64)
binary("Equal", tf.equal, CMP + (BOOL,))
binary("NotEqual", tf.not_equal, CMP + (BOOL,))
binary("EqualSmall", tf.equal, (F32, I32, I64), "small", "small")
binary("NotEqualSmall", tf.not_equal, (F32, I32, I64), "small", "small")
binary("Greater", tf.greater, CMP)
binary("Less", tf.less, CMP)
binary("GreaterEqual", tf.greater_equal, CMP, "small", "small")
binary("LessEqual", tf.less_equal, CMP, "small", "small")
binary("BitwiseAnd", tf.bitwise.bitwise_and, (I32, I64, U8), "wide", "wide", minop=18)
binary("BitwiseOr", tf.bitwise.bitwise_or, (I32, I64, U8), "wide", "wide", minop=18)
binary("BitwiseXor", tf.bitwise.bitwise_xor, (I32, I64, U8), "wide", "wide", minop=18)


def shiftcell(name, op):
    @cell(name, "C01 math", minop=11)
    def g(d, opset):
        dt = d.choice([I32, I32, U8, I8, I16, U32])
        s = sh(d)
        neg = {} if dt.startswith("u") or name == "LeftShift" else {}
        lo = 0 if dt.startswith("u") or not d.bool() else -100
        hi = 100
        return {"ins": [t(d, s, dt, "int", lo=lo, hi=hi), t(d, bcast(d, s) if False else s, dt, "int", lo=0, hi=5)]}

    @g.builds
    def b(p, x, y):
        return op(x, y)


shiftcell("LeftShift", tf.bitwise.left_shift)
shiftcell("RightShift", tf.bitwise.right_shift)


@cell("PowConst", "C01 math", tol=(1e-3, 1e-4))
def g(d, opset):
    return {"ins": [t(d, sh(d), F32, "pos")], "e": d.choice([2.0, 0.5, 3.0, -1.0, 0.0, 1.0, -2.0, 1.5])}


@g.builds
def _(p, x):
    return tf.pow(x, p["e"])


@cell("ClipByValue", "C01 math")
def g(d, opset):
    dt = d.choice([F32, F32, F64, I32, I64])
    lo = d.int(-4, 2)
    hi = lo + d.int(0, 6)
    k = {"ins": [t(d, sh(d), dt)], "lo": lo, "hi": hi, "raw": d.bool()}
    if k["raw"]:
        k["ins"] += [val(lo, dt, d=d, dyn="never"), val(hi, dt, d=d, dyn="never")]
    return k


@g.builds
def _(p, x, *lh):
    if lh:
        return tf.raw_ops.ClipByValue(t=x, clip_value_min=lh[0], clip_value_max=lh[1])
    return tf.clip_by_value(x, tf.cast(p["lo"], x.dtype), tf.cast(p["hi"], x.dtype))


@cell("AddN", "C01 math")
def g(d, opset):
    dt = d.choice([F32, F64, F32])
    s = sh(d)
    return {"ins": [t(d, s, dt) for _ in range(d.int(1, 4))]}


@g.builds
def _(p, *xs):
    return tf.add_n(list(xs))


def softmaxcell(name, op):
    @cell(name, "C01 C03 math")
    def g(d, opset):
        s = d.shape(1, 4, dim=4)
        return {"ins": [t(d, s, F32, d.choice(["normal", "big", "small"]))], "axis": d.int(-len(s), len(s) - 1)}

    @g.builds
    def b(p, x):
        return op(x, axis=p["axis"])


softmaxcell("Softmax", tf.nn.softmax)
softmaxcell("LogSoftmax", tf.nn.log_softmax)


CAST = (F32, F64, F16, I32, I64, I8, U8, I16, U16, U32, U64, BOOL)


@cell("Cast", "C01 math", weight=3)
def g(d, opset):
    a, b = d.choice(CAST), d.choice(CAST)
    s = sh(d)
    neg_ok = not (b.startswith("u")) and not a.startswith("u")
    if a == BOOL:
        x = t(d, s, a)
    elif is_float(a):
        if is_float(b) or b == BOOL:
            x = t(d, s, a, d.choice(["half", "small", "normal"]))
        else:
            x = t(d, s, a, "uniform", lo=-30.0 if neg_ok else 0.0, hi=100.0)
    else:
        x = t(d, s, a, "int", lo=-100 if neg_ok else 0, hi=120)
    return {"ins": [x], "to": b}


@g.builds
def _(p, x):
    return tf.cast(x, p["to"])


@cell("SelectV2", "C01 math", weight=2)
def g(d, opset):
    dt = d.choice([F32, F64, I32, I64, BOOL])
    s = sh(d)
    shapes = [bcast(d, s), bcast(d, s), bcast(d, s)]
    return {"ins": [t(d, shapes[0], BOOL), t(d, shapes[1], dt), t(d, shapes[2], dt)]}


@g.builds
def _(p, c, x, y):
    return tf.where(c, x, y)


@cell("SelectRaw", "C01 math", weight=2)
def g(d, opset):
    """Select (v1): the condition is a scalar, a vector over the first dimension or of the full shape."""
    dt = d.choice([F32, F32, I32, I64, F64])
    s = d.shape(0, 4, dim=4)
    how = d.int(0, 2)
    c = [] if how == 0 else (s[:1] if how == 1 else s)
    return {"ins": [t(d, c, BOOL, dyn="never"), t(d, s, dt, dyn="never"), t(d, s, dt, dyn="never")]}


@g.builds
def _(p, c, x, y):
    return tf.raw_ops.Select(condition=c, x=x, y=y)


@cell("WhereIndices", "C01 math")
def g(d, opset):
    dt = d.choice([BOOL, BOOL, F32, I32])
    return {"ins": [t(d, d.shape(1, 4, dim=4), dt, "bool" if dt == BOOL else "small")]}


@g.builds
def _(p, x):
    return tf.where(x)


@cell("Prelu", "C01 math")
def g(d, opset):
    s = sh(d, lo=1)
    return {"ins": [t(d, s, F32), t(d, s[-1:], F32)]}


@g.builds
def _(p, x, a):
    return tf.maximum(x, 0.0) + a * tf.minimum(x, 0.0)


# ---- reductions

def axes(d, rank, empty=True):
    if rank == 0:
        return d.choice([None, []]) if empty else None
    how = d.int(0, 3)
    if how == 0:
        return None
    if how == 1:
        return d.int(-rank, rank - 1)
    ax = d.subset(range(rank), 0 if (empty and d.prob(5)) else 1, rank)
    return [a - rank if d.bool() else a for a in ax]


def reduction(name, op, dtypes, kind=None, zero=False, tol=None, weight=2):
    @cell(name, "C01 math reduce", tol=tol, weight=weight)
    def g(d, opset):
        dt = d.choice(dtypes)
        s = d.shape(0, 4, zero=zero, dim=4)
        return {"ins": [t(d, s, dt, d.choice(kind) if isinstance(kind, (list, tuple)) else kind)],
                "axis": axes(d, len(s)), "keep": d.bool()}

    @g.builds
    def b(p, x):
        return op(x, axis=p["axis"], keepdims=p["keep"])


RD = (F32, F32, F64, I32, I64)
reduction("ReduceSum", tf.reduce_sum, RD)
reduction("ReduceMean", tf.reduce_mean, (F32, F32, F64))
reduction("ReduceMax", tf.reduce_max, RD)
reduction("ReduceMin", tf.reduce_min, RD)
reduction("ReduceProd", tf.reduce_prod, (F32, I32), kind=["small", "half"])
reduction("ReduceAll", tf.reduce_all, (BOOL,), kind="bool", zero=False)
reduction("ReduceAny", tf.reduce_any, (BOOL,), kind="bool", zero=False)
reduction("ReduceLogSumExp", tf.reduce_logsumexp, (F32,), weight=1)
reduction("ReduceEuclid", lambda x, axis, keepdims: tf.norm(x, axis=axis, keepdims=keepdims) if not isinstance(axis, list) else tf.sqrt(tf.reduce_sum(x * x, axis, keepdims)), (F32,), weight=1)
reduction("ReduceVar", tf.math.reduce_variance, (F32,), weight=1)
reduction("CountNonzero", lambda x, axis, keepdims: tf.math.count_nonzero(x, axis=axis, keepdims=keepdims), (F32, I32), kind="small", weight=1)


def argcell(name, op):
    @cell(name, "C01 math reduce", weight=2)
    def g(d, opset):
        dt = d.choice([F32, F32, I32, F64, U8, I8] if name == "ArgMax" else [F32, F32, I32, F64])
        s = d.shape(1, 4, dim=5)
        kind = "distinct" if d.bool() else ("small" if dt in (F32, F64) else "int")
        return {"ins": [t(d, s, dt, kind)], "axis": d.int(-len(s), len(s) - 1), "out": d.choice(["int64", "int32"])}

    @g.builds
    def b(p, x):
        return op(x, axis=p["axis"], output_type=tf.as_dtype(p["out"]))


argcell("ArgMax", tf.argmax)
argcell("ArgMin", tf.argmin)


@cell("Cumsum", "C01 math", minop=11, weight=2)
def g(d, opset):
    dt = d.choice([F32, F64, I32, I64])
    s = d.shape(1, 4, dim=4)
    return {"ins": [t(d, s, dt)], "axis": d.int(-len(s), len(s) - 1), "ex": d.bool(), "rev": d.bool()}


@g.builds
def _(p, x):
    return tf.cumsum(x, axis=p["axis"], exclusive=p["ex"], reverse=p["rev"])


@cell("Cumprod", "C01 math", minop=11, weight=2)
def g(d, opset):
    dt = d.choice([F32, F32, I32, I64, F64])
    s = d.shape(1, 4, dim=4)
    return {"ins": [t(d, s, dt, "nonzero" if dt in (F32, F64) else "small")], "axis": d.int(-len(s), len(s) - 1), "ex": d.bool(), "rev": d.bool()}


@g.builds
def _(p, x):
    return tf.math.cumprod(x, axis=p["axis"], exclusive=p["ex"], reverse=p["rev"])


@cell("FakeQuantArgs", "C01 C03 math", minop=13)
def g(d, opset):
    lo, hi = d.choice([(-6.0, 6.0), (0.0, 6.0), (-1.0, 3.0), (-3.0, 1.0), (-5.0, 0.0)])
    return {"ins": [t(d, sh(d, lo=1), F32, d.choice(["big", "normal"]))], "lo": lo, "hi": hi, "narrow": False, "bits": 8}


@g.builds
def _(p, x):
    return tf.quantization.fake_quant_with_min_max_args(x, min=p["lo"], max=p["hi"], num_bits=p["bits"], narrow_range=p["narrow"])
_.__globals__["CELLS_MATH_DONE"] = True
