"""Neural-network layer operators (C03)."""
import numpy as np
import tensorflow as tf

from core import Reject
from prog import make, BOOL, F16, F32, F64, I32, I64, cell, t, val

CONV_TOL = (5e-4, 5e-5)


def out_len(n, k, s, dil, pad, ex=(0, 0)):
    eff = (k - 1) * dil + 1
    if pad == "SAME":
        return -(-n // s)
    n += sum(ex)
    return (n - eff) // s + 1


def spatial_dims(d, rank, kernel, dil, hi=9):
    """Input sizes that leave at least one output for VALID."""
    return [d.int((k - 1) * r + 1, max(hi, (k - 1) * r + 1)) for k, r in zip(kernel, dil)]


def to_first(x):
    r = len(x.shape)
    return tf.transpose(x, [0, r - 1] + list(range(1, r - 1)))


def to_last(x):
    r = len(x.shape)
    return tf.transpose(x, [0] + list(range(2, r)) + [1])


def nchw(shape):
    return [shape[0], shape[-1]] + list(shape[1:-1])


FORMATS = {1: ("NWC", "NCW"), 2: ("NHWC", "NCHW"), 3: ("NDHWC", "NCDHW")}


def conv_params(d, rank, explicit=True):
    kernel = [d.int(1, 3 if rank == 3 else 4) for _ in range(rank)]
    strides, dil = [1] * rank, [1] * rank
    what = d.int(0, 3)
    if what == 1:
        strides = [d.int(1, 3) for _ in range(rank)]
    elif what == 2:
        dil = [d.int(1, 3) for _ in range(rank)]
        if rank == 3:
            dil = dil[:1] * 3       # (TensorFlow's shape function mixes up different 3D dilations)
    pad = d.choice(["SAME", "SAME", "VALID", "EXPLICIT"] if explicit and rank == 2 else ["SAME", "VALID"])
    ex = [[0, 0]] + [[d.int(0, 2), d.int(0, 2)] for _ in range(rank)] + [[0, 0]] if pad == "EXPLICIT" else None
    return kernel, strides, dil, pad, ex


def fix_auto(d, x, k, st, dil, pad, first):
    """SAME with sizes not known at conversion time relies on the runtime's auto_pad."""
    if len(k) == 3 and pad == "SAME" and any(b - a >= 2 for a, b in zip(k, st)):
        raise Reject("TensorFlow's 3D kernels disagree among themselves when the stride is 2 above the kernel size")
    sp = slice(2, None) if first else slice(1, -1)
    if pad == "SAME" and x.get("dyn") and any(x["dyn"][sp]):
        # ONNX Runtime refuses auto_pad with dilations
        if any(r > 1 for r in dil) or d.avoid("same-padding-unknown-size-stride-above-kernel", any(b - a >= 2 for a, b in zip(k, st))):
            x["dyn"][sp] = [False] * len(k)
    return x


def fmt_paddings(p, first):
    if p["pad"] != "EXPLICIT":
        return p["pad"]
    e = p["ex"]
    return [e[0], e[-1]] + e[1:-1] if first else e


def convcell(rank, weight):
    @cell("Conv%dD" % rank, "C03 nn", tol=CONV_TOL, weight=weight)
    def g(d, opset):
        kernel, strides, dil, pad, ex = conv_params(d, rank)
        groups = d.choice([1, 1, 1, 2]) if rank == 2 else 1
        ci, co = groups * d.int(1, 3), groups * d.int(1, 3)
        first = d.prob(25)
        s = [d.int(1, 2)] + spatial_dims(d, rank, kernel, dil, 6 if rank == 3 else 9) + [ci]
        if groups > 1:
            dil = [1] * rank
        x = t(d, nchw(s) if first else s, F32, "normal", const="never")
        if groups > 1 and x.get("dyn"):
            x["dyn"][1 if first else -1] = False
        fix_auto(d, x, kernel, strides, dil, pad, first)
        return {"ins": [x, t(d, kernel + [ci // groups, co], F32, "normal", const="always" if d.prob(75) else "never", dyn="never")],
                "s": strides, "d": dil, "pad": pad, "ex": ex, "first": first, "g": groups}

    def conv(p, x, k, first):
        f = FORMATS[rank][1 if first else 0]
        pad = fmt_paddings(p, first)
        if rank == 1:
            return tf.nn.conv1d(x, k, p["s"][0], pad, f, dilations=p["d"][0])
        fn = tf.nn.conv2d if rank == 2 else lambda a, b, s, q, data_format, dilations: tf.nn.conv3d(
            a, b, [1] + s + [1] if not first else [1, 1] + s, q, data_format,
            [1] + dilations + [1] if not first else [1, 1] + dilations)
        return fn(x, k, p["s"], pad, data_format=f, dilations=p["d"])

    @g.builds
    def _(p, x, k):
        return conv(p, x, k, p["first"])

    @g.refs
    def _(p, x, k):
        if p["first"]:
            return to_first(conv(p, to_last(x), k, False))
        return conv(p, x, k, False)


convcell(1, 2)
convcell(2, 6)
convcell(3, 2)


@cell("DepthwiseConv", "C03 nn", tol=CONV_TOL, weight=3)
def g(d, opset):
    kernel, strides, dil, pad, ex = conv_params(d, 2)
    strides = [strides[0]] * 2
    ci, m = d.int(1, 4), d.int(1, 3)
    first = d.prob(20)
    s = [d.int(1, 2)] + spatial_dims(d, 2, kernel, dil) + [ci]
    x = fix_auto(d, t(d, nchw(s) if first else s, F32, "normal", const="never"), kernel, strides, dil, pad, first)
    return {"ins": [x,
                    t(d, kernel + [ci, m], F32, "normal", const="always" if d.prob(75) else "never", dyn="never")],
            "s": strides, "d": dil, "pad": pad, "ex": ex, "first": first}


def depthwise(p, x, k, first):
    s = [1, 1] + p["s"] if first else [1] + p["s"] + [1]
    return tf.nn.depthwise_conv2d(x, k, s, fmt_paddings(p, first), "NCHW" if first else "NHWC", p["d"])


@g.builds
def _(p, x, k):
    return depthwise(p, x, k, p["first"])


@g.refs
def _(p, x, k):
    return to_first(depthwise(p, to_last(x), k, False)) if p["first"] else depthwise(p, x, k, False)


@cell("SeparableConv", "C03 nn", tol=CONV_TOL)
def g(d, opset):
    kernel, strides, dil, pad, ex = conv_params(d, 2, explicit=False)
    strides = [strides[0]] * 2
    ci, m, co = d.int(1, 3), d.int(1, 2), d.int(1, 3)
    s = [d.int(1, 2)] + spatial_dims(d, 2, kernel, dil) + [ci]
    x = fix_auto(d, t(d, s, F32, "normal", const="never"), kernel, strides, dil, pad, False)
    return {"ins": [x, t(d, kernel + [ci, m], F32, "normal", const="always"),
                    t(d, [1, 1, ci * m, co], F32, "normal", const="always")], "s": strides, "d": dil, "pad": pad}


@g.builds
def _(p, x, a, b):
    return tf.nn.separable_conv2d(x, a, b, [1] + p["s"] + [1], p["pad"], dilations=p["d"])


def transposecell(rank, weight):
    @cell("ConvTranspose%dD" % rank, "C03 nn", tol=CONV_TOL, weight=weight)
    def g(d, opset):
        kernel = [d.int(1, 3 if rank == 3 else 4) for _ in range(rank)]
        strides = [d.int(1, 3) for _ in range(rank)] if d.bool() else [1] * rank
        pad = d.choice(["SAME", "VALID"])
        ci, co, n = d.int(1, 3), d.int(1, 3), d.int(1, 2)
        # any output size whose forward convolution has the input's size
        outs, ins = [], []
        for k, s in zip(kernel, strides):
            i = d.int(1, 4)
            if pad == "SAME":
                o = s * (i - 1) + 1 + d.int(0, s - 1)
            else:
                o = s * (i - 1) + k + d.int(0, s - 1)
            ins.append(i)
            outs.append(o)
        first = d.prob(15)
        dynout = d.prob(25) and not first and rank >= 2 and (opset >= 12 or all(s == 1 for s in strides))
        x = t(d, ([n, ci] + ins) if first else [n] + ins + [ci], F32, "normal", const="never")
        if dynout:
            x.pop("dyn", None)
        if x.get("dyn"):
            x["dyn"][1 if first else -1] = False
        shp = ([n, co] + outs) if first else [n] + outs + [co]
        return {"ins": [x, t(d, kernel + [co, ci], F32, "normal", const="always", dyn="never"),
                        val(shp, I32, const="never" if dynout else "always", dyn="never")],
                "s": strides, "pad": pad, "first": first, "clean": [n, outs, co]}

    def conv(p, x, k, o, first):
        f = FORMATS[rank][1 if first else 0]
        if rank == 1:
            return tf.nn.conv1d_transpose(x, k, o, p["s"][0], p["pad"], f)
        s = [1, 1] + p["s"] if first else [1] + p["s"] + [1]
        fn = tf.nn.conv2d_transpose if rank == 2 else tf.nn.conv3d_transpose
        return fn(x, k, o, s, p["pad"], f)

    @g.builds
    def _(p, x, k, o):
        return conv(p, x, k, o, p["first"])

    @g.refs
    def _(p, x, k, o):
        if not p["first"]:
            return conv(p, x, k, o, False)
        n, outs, co = p["clean"]
        return to_first(conv(p, to_last(x), k, tf.constant([n] + outs + [co]), False))


transposecell(1, 1)
transposecell(2, 4)
transposecell(3, 1)


def poolcell(name, rank, op, weight):
    @cell(name, "C03 nn", weight=weight)
    def g(d, opset):
        kernel = [d.int(1, 4) for _ in range(rank)]
        strides = [d.int(1, 3) for _ in range(rank)]
        ex = None
        pad = d.choice(["SAME", "VALID"])
        if name == "MaxPool2D" and d.prob(20):
            pad = "EXPLICIT"
            ex = [[0, 0]] + [[d.int(0, k - 1), d.int(0, k - 1)] for k in kernel] + [[0, 0]]
        s = [d.int(1, 2)] + [d.int(k, 8 if rank < 3 else 5) for k in kernel] + [d.int(1, 3)]
        first = d.prob(20) and rank > 1
        x = t(d, nchw(s) if first else s, F32, d.choice(["normal", "small", "distinct"]), const="never")
        fix_auto(d, x, kernel, strides, [1], pad, first)
        return {"ins": [x], "k": kernel, "s": strides, "pad": pad, "ex": ex, "first": first}

    def pool(p, x, first):
        return op(x, p["k"], p["s"], fmt_paddings(p, first), data_format=FORMATS[rank][1 if first else 0])

    @g.builds
    def _(p, x):
        return pool(p, x, p["first"])

    @g.refs
    def _(p, x):
        return to_first(pool(p, to_last(x), False)) if p["first"] else pool(p, x, False)


poolcell("MaxPool1D", 1, tf.nn.max_pool1d, 1)
poolcell("MaxPool2D", 2, tf.nn.max_pool2d, 3)
poolcell("MaxPool3D", 3, tf.nn.max_pool3d, 1)
poolcell("AvgPool1D", 1, tf.nn.avg_pool1d, 1)
poolcell("AvgPool2D", 2, tf.nn.avg_pool2d, 3)
poolcell("AvgPool3D", 3, tf.nn.avg_pool3d, 1)


@cell("MaxPoolArgmax", "C03 nn", minop=11, weight=2)
def g(d, opset):
    kernel = [d.int(1, 3), d.int(1, 3)]
    s = [d.int(1, 2), d.int(kernel[0], 6), d.int(kernel[1], 6), d.int(1, 3)]
    st, pad = [d.int(1, 3), d.int(1, 3)], d.choice(["SAME", "VALID"])
    x = fix_auto(d, t(d, s, F32, "distinct", const="never"), kernel, st, [1], pad, False)
    return {"ins": [x], "k": kernel, "s": st, "pad": pad, "out": d.choice(["int64", "int32"]), "batch": d.bool()}


@g.builds
def _(p, x):
    a, b = tf.nn.max_pool_with_argmax(x, p["k"], p["s"], p["pad"], output_dtype=tf.as_dtype(p["out"]),
                                      include_batch_in_index=p["batch"])
    return a, b


@cell("BiasAdd", "C03 nn", weight=2)
def g(d, opset):
    r = d.int(2, 5)
    s = d.shape(r, r, dim=4)
    first = d.prob(35) and r >= 3
    return {"ins": [t(d, s, F32), t(d, [s[1] if first else s[-1]], F32, const="always" if first or d.bool() else "never", dyn="never")],
            "first": first}


@g.builds
def _(p, x, b):
    return tf.nn.bias_add(x, b, data_format="NC.." if p["first"] else "N..C")


@cell("FusedBatchNorm", "C03 nn", tol=(1e-3, 1e-4), weight=3)
def g(d, opset):
    s = d.shape(4, 4, dim=5)
    first = d.prob(25)
    train = d.prob(20)
    if train:
        s[1] = max(s[1], 2)
    c = s[-1]
    x = t(d, nchw(s) if first else s, F32, "normal", const="never")
    kw = dict(const="always" if d.bool() else "never", dyn="never")
    return {"ins": [x, t(d, [c], F32, "normal", **kw), t(d, [c], F32, "normal", **kw), t(d, [c], F32, "normal", **kw),
                    t(d, [c], F32, "pos", **kw)], "first": first, "eps": d.choice([1e-3, 1e-5, 0.1]), "train": train}


def bn(p, x, s, o, m, v, first):
    f = "NCHW" if first else "NHWC"
    if p["train"]:
        y, _, _ = tf.compat.v1.nn.fused_batch_norm(x, s, o, epsilon=p["eps"], is_training=True, data_format=f)
    else:
        y, _, _ = tf.compat.v1.nn.fused_batch_norm(x, s, o, m, v, epsilon=p["eps"], is_training=False, data_format=f)
    return y


@g.builds
def _(p, x, s, o, m, v):
    return bn(p, x, s, o, m, v, p["first"])


@g.refs
def _(p, x, s, o, m, v):
    return to_first(bn(p, to_last(x), s, o, m, v, False)) if p["first"] else bn(p, x, s, o, m, v, False)


@cell("BatchNormalization", "C03 nn", tol=(1e-3, 1e-4))
def g(d, opset):
    s = d.shape(2, 4, dim=4)
    c = s[-1]
    kw = dict(const="always" if d.bool() else "never", dyn="never")
    return {"ins": [t(d, s, F32, "normal"), t(d, [c], F32, "normal", **kw), t(d, [c], F32, "pos", **kw),
                    t(d, [c], F32, "normal", **kw), t(d, [c], F32, "normal", **kw)], "sc": d.bool(), "of": d.bool()}


@g.builds
def _(p, x, m, v, o, s):
    return tf.nn.batch_normalization(x, m, v, o if p["of"] else None, s if p["sc"] else None, 1e-3)


@cell("Moments", "C03 nn", tol=(1e-3, 1e-4))
def g(d, opset):
    s = d.shape(1, 4, dim=4)
    return {"ins": [t(d, s, F32, "normal")], "ax": d.subset(range(len(s)), 1), "keep": d.bool()}


@g.builds
def _(p, x):
    return tf.nn.moments(x, p["ax"], keepdims=p["keep"])


@cell("LRN", "C03 nn")
def g(d, opset):
    s = d.shape(4, 4, dim=4)
    s[-1] = d.int(1, 8)
    return {"ins": [t(d, s, F32, "normal", const="never")], "r": d.int(0, 4), "bias": d.choice([1.0, 2.0, 0.5]),
            "alpha": d.choice([1.0, 0.5, 0.01]), "beta": d.choice([0.5, 0.75, 1.0])}


@g.builds
def _(p, x):
    return tf.nn.local_response_normalization(x, depth_radius=p["r"], bias=p["bias"], alpha=p["alpha"], beta=p["beta"])


@cell("L2Normalize", "C03 nn")
def g(d, opset):
    s = d.shape(1, 4, dim=4)
    return {"ins": [t(d, s, F32)], "ax": d.int(-len(s), len(s) - 1), "eps": d.choice([1e-12, 0.1])}


@g.builds
def _(p, x):
    return tf.math.l2_normalize(x, axis=p["ax"], epsilon=p["eps"])


def softcell(name, op):
    @cell(name, "C03 nn", weight=2)
    def g(d, opset):
        s = d.shape(1, 4, dim=4)
        return {"ins": [t(d, s, d.choice([F32, F32, F64]), d.choice(["normal", "big"]))], "ax": d.int(-len(s), len(s) - 1) if d.prob(60) else -1}

    @g.builds
    def _(p, x):
        return op(x, axis=p["ax"])


softcell("SoftmaxAxis", tf.nn.softmax)
softcell("LogSoftmaxAxis", tf.nn.log_softmax)


@cell("SoftmaxCE", "C03 nn", weight=2)
def g(d, opset):
    s = [d.int(1, 4), d.int(1, 5)]
    x = t(d, s, F32, "normal", const="never")
    y = t(d, s, F32, "pos", const="never")
    y["dyn"] = x.get("dyn")
    return {"ins": [x, y], "norm": d.bool(), "compat": d.bool()}


@g.builds
def _(p, x, y):
    if p["norm"]:
        y = y / tf.reduce_sum(y, -1, keepdims=True)
    if p["compat"]:
        return tf.compat.v1.nn.softmax_cross_entropy_with_logits(labels=y, logits=x)
    return tf.nn.softmax_cross_entropy_with_logits(y, x)


@cell("SparseSoftmaxCE", "C03 nn", weight=2)
def g(d, opset):
    s = [d.int(1, 4), d.int(1, 5)]
    return {"ins": [t(d, s, F32, "normal", const="never", dyn="never"), t(d, s[:1], d.choice([I32, I64]), "int", lo=0, hi=s[1] - 1, const="never")]}


@g.builds
def _(p, x, y):
    return tf.nn.sparse_softmax_cross_entropy_with_logits(labels=y, logits=x)


@cell("WeightedCE", "C03 nn")
def g(d, opset):
    s = d.shape(1, 3)
    return {"ins": [t(d, s, F32, "normal", dyn="never")]}


@g.builds
def _(p, x):
    return tf.nn.log_softmax(x) * tf.nn.softmax(x)


def blockcell(name, op):
    @cell(name, "C03 nn", weight=2)
    def g(d, opset):
        b = d.int(2, 3)
        s = [d.int(1, 3), d.int(1, 3), d.int(1, 3), d.int(1, 3)]
        s = [s[0], s[1] * b, s[2] * b, s[3]] if name == "SpaceToDepth" else [s[0], s[1], s[2], s[3] * b * b]
        first = d.prob(30)
        return {"ins": [t(d, nchw(s) if first else s, F32, const="never")], "b": b, "first": first}

    @g.builds
    def _(p, x):
        return op(x, p["b"], data_format="NCHW" if p["first"] else "NHWC")

    @g.refs
    def _(p, x):
        return to_first(op(to_last(x), p["b"])) if p["first"] else op(x, p["b"])


blockcell("SpaceToDepth", tf.nn.space_to_depth)
blockcell("DepthToSpace", tf.nn.depth_to_space)


@cell("SpaceToBatchND", "C03 nn", minop=11, weight=2)
def g(d, opset):
    k = d.int(1, 3)
    blocks = [d.int(1, 3) for _ in range(k)]
    rest = d.shape(0, 2, dim=3)
    pads, dims = [], []
    for b in blocks:
        n = d.int(1, 4)
        lo = d.int(0, 2)
        hi = (-(n + lo)) % b + b * d.int(0, 1)
        dims.append(n)
        pads.append([lo, hi])
    cst = "always" if d.prob(80) else "never"
    return {"ins": [t(d, [d.int(1, 3)] + dims + rest, F32, const="never"),
                    val(blocks, d.choice([I32, I64]), const="always"), val(pads, d.choice([I32, I64]), const="always")]}


@g.builds
def _(p, x, b, q):
    return tf.space_to_batch(x, b, q)


@cell("BatchToSpaceND", "C03 nn", minop=11, weight=2)
def g(d, opset):
    k = d.int(1, 3)
    blocks = [d.int(1, 3) for _ in range(k)]
    rest = d.shape(0, 2, dim=3)
    dims = [d.int(1, 3) for _ in blocks]
    crops = []
    for n, b in zip(dims, blocks):
        lo = d.int(0, n * b - 1)
        crops.append([lo, d.int(0, n * b - 1 - lo)] if d.bool() else [0, 0])
    n = int(np.prod(blocks)) * d.int(1, 2)
    return {"ins": [t(d, [n] + dims + rest, F32, const="never"), val(blocks, d.choice([I32, I64]), const="always"),
                    val(crops, d.choice([I32, I64]), const="always")]}


@g.builds
def _(p, x, b, q):
    return tf.batch_to_space(x, b, q)


@cell("AtrousConv", "C03 nn", minop=11, tol=CONV_TOL)
def g(d, opset):
    k, r = d.int(1, 3), d.int(1, 3)
    n = d.int((k - 1) * r + 1, 10)
    m = d.int((k - 1) * r + 1, 10)
    ci, co = d.int(1, 2), d.int(1, 3)
    return {"ins": [t(d, [d.int(1, 2), n, m, ci], F32, "normal", const="never"), t(d, [k, k, ci, co], F32, "normal", const="always")],
            "r": r, "pad": d.choice(["SAME", "VALID"])}


@g.builds
def _(p, x, k):
    return tf.nn.atrous_conv2d(x, k, p["r"], p["pad"])


@cell("CTCGreedy", "C03 nn", minop=11)
def g(d, opset):
    tt, n, c = d.int(1, 6), d.int(1, 3), d.int(2, 4)
    lens = [d.int(1, tt) for _ in range(n)]
    x = t(d, [tt, n, c], F32, "distinct", const="never", dyn="never")
    best = make(x).argmax(-1)
    if d.avoid("ctc-greedy-nothing-decoded", all(best[i, j] == c - 1 for j in range(n) for i in range(lens[j]))):
        lens = [tt] * n
        x = t(d, [tt, n, c], F32, "uniform", lo=0, hi=1, const="never", dyn="never")
        if all(make(x).argmax(-1).reshape(-1) == c - 1):
            raise Reject("nothing decoded")
    return {"ins": [x, val(lens, I32, const="never", dyn="never")], "merge": d.bool()}


@g.builds
def _(p, x, l):
    (sp,), lp = tf.nn.ctc_greedy_decoder(x, l, merge_repeated=p["merge"])
    return sp.indices, sp.values, sp.dense_shape, lp


@cell("FakeQuant", "C03 nn", minop=10, weight=2)
def g(d, opset):
    lo = d.choice([-6.0, -1.0, 0.0, -3.5, -0.1])
    hi = d.choice([6.0, 1.0, 3.5, 0.5, 10.0])
    return {"ins": [t(d, d.shape(0, 4), F32, d.choice(["normal", "big"]))], "lo": lo, "hi": hi, "bits": d.choice([8, 8, 8, 8]),
            "narrow": False, "vars": d.bool()}


@g.builds
def _(p, x):
    if p["vars"]:
        return tf.quantization.fake_quant_with_min_max_vars(x, p["lo"], p["hi"], p["bits"], p["narrow"])
    return tf.quantization.fake_quant_with_min_max_args(x, p["lo"], p["hi"], p["bits"], p["narrow"])


@cell("Dropout", "C03 nn")
def g(d, opset):
    return {"ins": [t(d, d.shape(1, 3), F32)], "rate": d.choice([0.0])}


@g.builds
def _(p, x):
    return tf.nn.dropout(x, p["rate"])


@cell("PadConv", "C03 nn", tol=CONV_TOL, weight=2)
def g(d, opset):
    k = d.int(1, 3)
    pads = [[0, 0], [d.int(0, 2), d.int(0, 2)], [d.int(0, 2), d.int(0, 2)], [0, 0]]
    n = d.int(k, 6)
    ci, co = d.int(1, 3), d.int(1, 3)
    return {"ins": [t(d, [d.int(1, 2), n, n, ci], F32, "normal", const="never"), t(d, [k, k, ci, co], F32, "normal", const="always"),
                    t(d, [co], F32, "normal", const="always")], "pads": pads, "s": d.int(1, 2), "pad": d.choice(["VALID", "VALID", "SAME"]),
            "act": d.int(0, 3), "v": d.choice([0, 0, 0, 1.5])}


@g.builds
def _(p, x, k, b):
    y = tf.nn.conv2d(tf.pad(x, p["pads"], constant_values=p["v"]), k, p["s"], p["pad"])
    y = tf.nn.bias_add(y, b)
    return [y, tf.nn.relu(y), tf.nn.relu6(y), tf.nn.leaky_relu(y)][p["act"]]
