"""Indexing, slicing and layout operators (C02)."""
import numpy as np
import tensorflow as tf

from core import Reject
from prog import BOOL, F32, F64, I8, I32, I64, U8, STR, cell, is_float, t, val

DT = (F32, F32, F32, F64, I32, I64, BOOL)
DTN = (F32, F32, F64, I32, I64)
IDX = (I32, I64)


def dt(d):
    return d.choice(DT)


def idx(d):
    return d.choice(IDX)


def nz(d, lo=1, hi=4, dim=4):
    return d.shape(lo, hi, zero=d.prob(8), dim=dim)


def axis_of(d, rank):
    return d.int(-rank, rank - 1)


@cell("Reshape", "C02 tensor", weight=2)
def g(d, opset):
    s = nz(d, 0)
    n = int(np.prod(s))
    # factor n in another shape
    out, rest = [], n
    for _ in range(d.int(0, 4)):
        divs = [k for k in range(1, rest + 1) if rest % k == 0] if rest > 0 else [1]
        k = d.choice(divs)
        out.append(k)
        rest //= k
    if rest != 1 or n == 0:
        out.append(rest)
    if len(out) and n > 0 and d.prob(50):
        out[d.int(0, len(out) - 1)] = -1
    if d.avoid("reshape-to-zero-dim", any(o == 0 and (i >= len(s) or s[i] != 0) for i, o in enumerate(out))):
        out = list(s)
    return {"ins": [t(d, s, dt(d)), val(out, idx(d), d=d, dyn="never") if d.prob(35) else val(out, I32, const="always")]}


@g.builds
def _(p, x, s):
    return tf.reshape(x, s)


@cell("ReshapeByShapeOf", "C02 tensor", weight=2)
def g(d, opset):
    s = d.shape(1, 4)
    return {"ins": [t(d, s, dt(d))], "how": d.int(0, 3), "out": idx(d)}


@g.builds
def _(p, x):
    s = tf.shape(x, out_type=tf.as_dtype(p["out"]))
    if p["how"] == 0:
        return tf.reshape(x, tf.concat([tf.cast(s[:1], s.dtype), [-1]], 0) if x.shape[0] != 0 else s)
    if p["how"] == 1:
        return tf.reshape(x, tf.reverse(s, [0]))
    if p["how"] == 2:
        return tf.reshape(x, tf.stack([tf.reduce_prod(s)]))
    return tf.reshape(x, tf.stack([s[-1], tf.reduce_prod(s[:-1])]))


@cell("Squeeze", "C02 tensor")
def g(d, opset):
    r = d.int(1, 5)
    s = [1 if d.prob(50) else d.dim(hi=4) for _ in range(r)]
    ones = [i for i, x in enumerate(s) if x == 1]
    ax = d.subset(ones, 0) if ones else []
    ax = [a - r if d.bool() else a for a in ax]
    return {"ins": [t(d, s, dt(d), dyn="maybe" if ax else "never")], "axis": ax}


@g.builds
def _(p, x):
    return tf.squeeze(x, axis=p["axis"] or None)


@cell("ExpandDims", "C02 tensor")
def g(d, opset):
    s = nz(d, 0)
    return {"ins": [t(d, s, dt(d)), val(d.int(-len(s) - 1, len(s)), idx(d), const="always")], "scalar": d.bool()}


@g.builds
def _(p, x, a):
    return tf.expand_dims(x, a)


@cell("Transpose", "C02 tensor", weight=2)
def g(d, opset):
    s = d.shape(0, 5, dim=4)
    return {"ins": [t(d, s, dt(d))], "perm": d.perm(len(s)) if d.prob(80) else None}


@g.builds
def _(p, x):
    return tf.transpose(x, p["perm"])


@cell("Concat", "C02 tensor", weight=2)
def g(d, opset):
    s = nz(d)
    ax = axis_of(d, len(s))
    ins = []
    ty = dt(d)
    for _ in range(d.int(1, 4)):
        q = list(s)
        q[ax] = d.dim(zero=True, hi=4)
        ins.append(t(d, q, ty))
    return {"ins": ins, "axis": ax}


@g.builds
def _(p, *xs):
    return tf.concat(list(xs), p["axis"])


@cell("ConcatV1", "C02 tensor")
def g(d, opset):
    s = nz(d)
    ax = d.int(0, len(s) - 1)
    ty = dt(d)
    ins = []
    for _ in range(d.int(2, 4)):
        q = list(s)
        q[ax] = d.dim(hi=4)
        ins.append(t(d, q, ty))
    return {"ins": ins, "axis": ax}


@g.builds
def _(p, *xs):
    return tf.raw_ops.Concat(concat_dim=p["axis"], values=list(xs))


@cell("Slice", "C02 tensor", weight=3)
def g(d, opset):
    s = nz(d, 1, 4, 5)
    b = [d.int(0, x) for x in s]
    z = [-1 if d.prob(25) else d.int(0, x - y) for x, y in zip(s, b)]
    ty = idx(d)
    bd, zd = d.prob(30), d.prob(30)
    return {"ins": [t(d, s, dt(d)), val(b, ty, const="never" if bd else "always", dyn="never"),
                    val(z, ty, const="never" if zd else "always", dyn="never")]}


@g.builds
def _(p, x, b, z):
    return tf.slice(x, b, z)


@cell("StridedSlice", "C02 tensor", weight=8)
def g(d, opset):
    s = nz(d, 1, 4, 6)
    n = d.int(1, len(s))
    new_axis = shrink = begin_mask = end_mask = ellipsis = 0
    b, e, st = [], [], []
    dim = 0
    n_new = 0
    items = []
    want_ell = d.prob(25)
    for i in range(n):
        items.append("dim")
    for _ in range(d.int(0, 1)):
        items.insert(d.int(0, len(items)), "new")
    if want_ell:
        at = d.int(0, len(items))
        items.insert(at, "ell")
    before = 0
    dims_total = sum(1 for x in items if x == "dim")
    for i, it in enumerate(items):
        if it == "ell":
            ellipsis |= 1 << i
            b.append(0); e.append(0); st.append(1)
            dim = len(s) - sum(1 for x in items[i + 1:] if x == "dim")
            continue
        if it == "new":
            new_axis |= 1 << i
            b.append(0); e.append(1); st.append(1)
            continue
        size = s[dim]
        dim += 1
        if d.prob(20) and size > 0:
            shrink |= 1 << i
            k = d.int(-size, size - 1)
            b.append(k); e.append(k + 1 if k != -1 else 2**31 - 1 if False else k + 1); st.append(1)
            continue
        step = d.choice([1, 1, 1, 2, 3, -1, -1, -2])
        b0 = d.int(-size - 1, size + 1)
        if d.avoid("strided-slice-negative-step-begin-below-range", step < 0 and b0 < -size):
            b0 = -size
        b.append(b0); e.append(d.int(-size - 2, size + 2)); st.append(step)
        if d.prob(25):
            begin_mask |= 1 << i
        if d.prob(30):
            end_mask |= 1 << i
    dyn_idx = d.prob(25)
    ty = idx(d)
    return {"ins": [t(d, s, dt(d)),
                    val(b, ty, const="never" if dyn_idx and d.bool() else "always", dyn="never"),
                    val(e, ty, const="never" if dyn_idx and d.bool() else "always", dyn="never"),
                    val(st, ty, const="always", dyn="never")],
            "bm": begin_mask, "em": end_mask, "el": ellipsis, "na": new_axis, "sm": shrink}


@g.builds
def _(p, x, b, e, s):
    return tf.strided_slice(x, b, e, s, begin_mask=p["bm"], end_mask=p["em"], ellipsis_mask=p["el"],
                            new_axis_mask=p["na"], shrink_axis_mask=p["sm"])


@cell("PySlice", "C02 tensor", weight=4)
def g(d, opset):
    s = nz(d, 1, 4, 6)
    items = []
    for i, size in enumerate(s):
        if d.prob(20):
            items.append(None)      # a full slice
        elif d.prob(25) and size > 0:
            items.append(d.int(-size, size - 1))
        else:
            b0, e0, st = (None if d.prob(35) else d.int(-size - 1, size + 1), None if d.prob(35) else d.int(-size - 1, size + 1),
                          d.choice([None, 1, 2, -1, -2, 3]))
            if d.avoid("strided-slice-negative-step-begin-below-range", (st or 1) < 0 and b0 is not None and b0 < -size):
                b0 = -size
            items.append([b0, e0, st])
    if d.prob(20):
        items = items[:d.int(1, len(items))]
        where = "end"
    return {"ins": [t(d, s, dt(d))], "items": items, "new": d.int(0, len(items)) if d.prob(20) else None, "ell": d.prob(20)}


@g.builds
def _(p, x):
    key = [slice(None) if i is None else (i if isinstance(i, int) else slice(*i)) for i in p["items"]]
    if p["new"] is not None:
        key.insert(p["new"], tf.newaxis)
    if p["ell"]:
        key.append(Ellipsis)
    return x[tuple(key)]


@cell("Roll", "C02 tensor", minop=10)
def g(d, opset):
    s = nz(d)
    if d.bool():
        k = d.int(1, min(3, len(s)))
        ax = [axis_of(d, len(s)) for _ in range(k)]
        sh = [d.int(-7, 7) for _ in ax]
    else:
        ax, sh = axis_of(d, len(s)), d.int(-7, 7)
    s = [max(1, x) for x in s]
    return {"ins": [t(d, s, dt(d)), val(sh, idx(d), d=d, dyn="never"), val(ax, I32, const="always")]}


@g.builds
def _(p, x, s, a):
    return tf.roll(x, s, a)


@cell("Gather", "C02 tensor", weight=3)
def g(d, opset):
    s = [max(1, x) for x in nz(d)]
    ax = axis_of(d, len(s))
    ishape = d.shape(0, 3, zero=True, dim=3)
    lo = 0
    return {"ins": [t(d, s, dt(d)), t(d, ishape, idx(d), "int", lo=0, hi=s[ax] - 1)], "axis": ax}


@g.builds
def _(p, x, i):
    return tf.gather(x, i, axis=p["axis"])


@cell("GatherBatch", "C02 tensor", minop=12, weight=3)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 2, 4)]
    bd = d.int(1, len(s) - 1)
    ax = d.int(bd, len(s) - 1)
    extra = d.shape(0, 2, dim=3)
    if ax == bd and not extra and False:
        pass
    return {"ins": [t(d, s, d.choice(DTN)), t(d, s[:bd] + extra, idx(d), "int", lo=0, hi=s[ax] - 1)], "axis": ax, "bd": bd}


@g.builds
def _(p, x, i):
    return tf.gather(x, i, axis=p["axis"], batch_dims=p["bd"])


@cell("GatherNd", "C02 tensor", minop=11, weight=2)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 4)]
    k = d.int(1, len(s))
    bs = d.shape(0, 2, dim=4)
    r = int(np.prod(bs)) if bs else 1
    ind = np.array([[d.int(0, s[j] - 1) for j in range(k)] for _ in range(r)]).reshape(bs + [k])
    return {"ins": [t(d, s, dt(d)), val(ind.tolist(), idx(d), d=d)]}


@g.builds
def _(p, x, i):
    return tf.gather_nd(x, i)


def scatter_args(d, dup):
    s = [max(1, x) for x in nz(d, 1, 3)]
    k = d.int(1, len(s))
    cells_n = int(np.prod(s[:k]))
    n = d.int(1, 4)
    if not dup:
        n = min(n, cells_n)
        flat_i = d.perm(cells_n)[:n]
    else:
        flat_i = [d.int(0, cells_n - 1) for _ in range(n)]
    ind = np.stack(np.unravel_index(flat_i, s[:k]), -1)
    bs = [n]
    if d.prob(25):
        ind = ind.reshape([n, 1, k])
        bs = [n, 1]
    return s, ind.tolist(), bs + s[k:]


@cell("ScatterNd", "C02 tensor", minop=11, weight=2)
def g(d, opset):
    s, ind, us = scatter_args(d, dup=False)
    ty = d.choice(DTN)
    it = idx(d)
    return {"ins": [val(ind, it, d=d), t(d, us, ty), val(s, it, const="always")]}


@g.builds
def _(p, i, u, s):
    return tf.scatter_nd(i, u, s)


def tscatter(name, op, minop, dup, dts=DTN):
    @cell(name, "C02 tensor", minop=minop)
    def g(d, opset):
        s, ind, us = scatter_args(d, dup=dup)
        ty = d.choice(dts)
        return {"ins": [t(d, s, ty), val(ind, idx(d), d=d), t(d, us, ty)]}

    @g.builds
    def _(p, x, i, u):
        return op(x, i, u)


tscatter("TensorScatterUpdate", tf.tensor_scatter_nd_update, 11, False)
tscatter("TensorScatterAdd", tf.tensor_scatter_nd_add, 16, True)
tscatter("TensorScatterSub", tf.tensor_scatter_nd_sub, 16, True)
tscatter("TensorScatterMax", tf.tensor_scatter_nd_max, 16, True)
tscatter("TensorScatterMin", tf.tensor_scatter_nd_min, 16, True)


@cell("Split", "C02 tensor", weight=2)
def g(d, opset):
    s = nz(d)
    ax = axis_of(d, len(s))
    n = d.int(1, 4)
    s[ax] = n * d.int(1, 3)
    return {"ins": [t(d, s, dt(d))], "axis": ax, "n": n}


@g.builds
def _(p, x):
    return tf.split(x, p["n"], axis=p["axis"])


@cell("SplitV", "C02 tensor", weight=2)
def g(d, opset):
    s = nz(d)
    ax = axis_of(d, len(s))
    sizes = [d.int(0, 3) for _ in range(d.int(1, 4))]
    if sum(sizes) == 0:
        sizes[0] = 1
    s[ax] = sum(sizes)
    if d.prob(30):
        sizes[d.int(0, len(sizes) - 1)] = -1
    return {"ins": [t(d, s, dt(d))], "axis": ax, "sizes": sizes}


@g.builds
def _(p, x):
    return tf.split(x, p["sizes"], axis=p["axis"])


@cell("Stack", "C02 tensor", weight=2)
def g(d, opset):
    s = nz(d, 0, 3)
    ty = dt(d)
    return {"ins": [t(d, s, ty) for _ in range(d.int(1, 3))], "axis": d.int(-len(s) - 1, len(s))}


@g.builds
def _(p, *xs):
    return tf.stack(list(xs), axis=p["axis"])


@cell("Unstack", "C02 tensor")
def g(d, opset):
    s = [max(1, x) for x in nz(d)]
    ax = axis_of(d, len(s))
    x = t(d, s, dt(d), dyn="never")
    return {"ins": [x], "axis": ax}


@g.builds
def _(p, x):
    return tf.unstack(x, axis=p["axis"])


@cell("Tile", "C02 tensor", weight=2)
def g(d, opset):
    s = nz(d)
    return {"ins": [t(d, s, d.choice(DTN + (BOOL,))), val([d.int(1, 3) if d.prob(92) else 0 for _ in s], idx(d), d=d, dyn="never")]}


@g.builds
def _(p, x, m):
    return tf.tile(x, m)


@cell("BroadcastTo", "C02 tensor")
def g(d, opset):
    s = nz(d, 0)
    src = [1 if d.prob(40) else x for x in s]
    src = src[d.int(0, len(src)):] if src and d.bool() else src
    return {"ins": [t(d, src, d.choice(DTN + (BOOL,))), val(s, idx(d), d=d, dyn="never")]}


@g.builds
def _(p, x, s):
    return tf.broadcast_to(x, s)


@cell("Fill", "C02 tensor")
def g(d, opset):
    s = nz(d, 0)
    ty = d.choice(DTN)
    return {"ins": [val(s, idx(d), d=d, dyn="never"), t(d, [], ty)]}


@g.builds
def _(p, s, v):
    return tf.fill(s, v)


@cell("Range", "C02 tensor", weight=2)
def g(d, opset):
    ty = d.choice([I32, I64, F32, F64])
    a = d.int(-6, 6)
    step = d.choice([1, 1, 2, 3, -1, -2])
    n = d.int(0, 6)
    b = a + step * n - (d.int(0, abs(step) - 1) * (1 if step > 0 else -1) if n else 0)
    if is_float(ty):
        a, b, step = a * 0.5, b * 0.5, step * 0.5
    return {"ins": [val(a, ty, d=d), val(b, ty, d=d), val(step, ty, d=d)]}


@g.builds
def _(p, a, b, s):
    return tf.range(a, b, s)


@cell("ShapeOf", "C02 tensor", weight=2)
def g(d, opset):
    return {"ins": [t(d, nz(d, 0), dt(d))], "out": idx(d), "what": d.int(0, 2)}


@g.builds
def _(p, x):
    if p["what"] == 0:
        return tf.shape(x, out_type=tf.as_dtype(p["out"]))
    if p["what"] == 1:
        return tf.size(x, out_type=tf.as_dtype(p["out"]))
    return tf.rank(x)


@cell("OneHot", "C02 tensor", weight=2)
def g(d, opset):
    s = d.shape(0, 3, dim=4)        # (ORT divides by zero for no indices)
    depth = d.int(1, 5)
    ty = d.choice([F32, F32, F32, I32, I64])
    if ty != F32:
        s = d.shape(1, 1, dim=5)
    # out-of-range indices give all-off rows
    lo, hi = (0, depth - 1) if d.prob(50) else (-2, depth + 1)
    return {"ins": [t(d, s, idx(d), "int", lo=lo, hi=hi), val(d.int(-3, 5) if d.prob(60) else 1, ty, const="always"), val(d.int(-3, 3) if d.prob(40) else 0, ty, const="always")],
            "depth": depth, "axis": d.choice([-1, -1, 0]) if ty == F32 or True else -1, "default": d.bool(), "ty": ty}


@g.builds
def _(p, i, on, off):
    ax = p["axis"]
    if p["default"]:
        return tf.one_hot(i, p["depth"], axis=ax, dtype=tf.as_dtype(p["ty"]))
    return tf.one_hot(i, p["depth"], on_value=on, off_value=off, axis=ax)


@cell("TopK", "C02 tensor", weight=2, minop=10)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 3, 6)]
    k = d.int(1, s[-1])
    x = t(d, s, d.choice([F32, F32, I32, I64, F64]), "distinct")
    if not is_float(x["dtype"]) and opset >= 11 and d.prob(50):
        x["off"] = d.choice([2**24 + 1, 2**30, -2**29])      # neighbours that float32 cannot tell apart
    return {"ins": [x, val(k, I32, d=d, dyn="never")], "sorted": True}


@g.builds
def _(p, x, k):
    v, i = tf.math.top_k(x, k, sorted=p["sorted"])
    return v, i


@cell("Sort", "C02 tensor", minop=11)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 3, 6)]
    return {"ins": [t(d, s, F32, "distinct", dyn="never")], "dir": d.choice(["ASCENDING", "DESCENDING"]), "arg": d.bool()}


@g.builds
def _(p, x):
    return tf.argsort(x, direction=p["dir"]) if p["arg"] else tf.sort(x, direction=p["dir"])


@cell("Pad", "C02 C03 tensor", weight=3)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 4)]
    pads = [[d.int(0, 3), d.int(0, 3)] for _ in s]
    ty = d.choice([F32, F32, F64, I32, I64])
    return {"ins": [t(d, s, ty), val(pads, idx(d), d=d, dyn="never")], "v": d.choice([0, 0, 1, -2])}


@g.builds
def _(p, x, pads):
    return tf.pad(x, pads, constant_values=p["v"]) if p["v"] else tf.pad(x, pads)


@cell("PadV2DynValue", "C02 C03 tensor", minop=11)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 4)]
    pads = [[d.int(0, 3), d.int(0, 3)] for _ in s]
    ty = d.choice([F32, F32, I32, I64])
    return {"ins": [t(d, s, ty), val(pads, idx(d), d=d, dyn="never"), t(d, [], ty)]}


@g.builds
def _(p, x, pads, v):
    return tf.raw_ops.PadV2(input=x, paddings=pads, constant_values=v)


@cell("MirrorPad", "C02 C03 tensor", weight=2)
def g(d, opset):
    s = [d.int(2, 5) for _ in range(d.int(1, 4))]
    sym = d.bool()
    pads = [[d.int(0, x if sym else x - 1), d.int(0, x if sym else x - 1)] for x in s]
    return {"ins": [t(d, s, d.choice([F32, F32, F64, I32, I64])), val(pads, idx(d), const="always")], "mode": "SYMMETRIC" if sym else "REFLECT"}


@g.builds
def _(p, x, pads):
    return tf.pad(x, pads, mode=p["mode"])


@cell("Reverse", "C02 tensor", minop=10, weight=2)
def g(d, opset):
    s = nz(d)
    ax = [a - len(s) if d.bool() else a for a in d.subset(range(len(s)), 0)]
    return {"ins": [t(d, s, dt(d))], "axis": ax}


@g.builds
def _(p, x):
    return tf.reverse(x, p["axis"])


@cell("Repeat", "C02 tensor", minop=11)
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 3)]
    return {"ins": [t(d, s, d.choice(DTN))], "n": d.int(1, 3), "axis": axis_of(d, len(s))}


@g.builds
def _(p, x):
    return tf.repeat(x, p["n"], axis=p["axis"])


@cell("Meshgrid", "C02 tensor")
def g(d, opset):
    return {"ins": [t(d, [d.int(1, 4)], F32, dyn="never"), t(d, [d.int(1, 4)], F32, dyn="never")], "ij": d.bool()}


@g.builds
def _(p, x, y):
    return tf.meshgrid(x, y, indexing="ij" if p["ij"] else "xy")


@cell("BooleanMask", "C02 tensor")
def g(d, opset):
    s = [max(1, x) for x in nz(d, 1, 3)]
    k = d.int(1, len(s))
    return {"ins": [t(d, s, d.choice(DTN), dyn="never"), t(d, s[:k], BOOL, dyn="never")]}


@g.builds
def _(p, x, m):
    return tf.boolean_mask(x, m)


@cell("IdentityN", "C02 tensor")
def g(d, opset):
    return {"ins": [t(d, nz(d, 0), dt(d)) for _ in range(d.int(1, 3))]}


@g.builds
def _(p, *xs):
    return tf.identity_n(list(xs))


@cell("EnsureShape", "C02 tensor")
def g(d, opset):
    s = nz(d, 0)
    return {"ins": [t(d, s, dt(d))], "s": [None if d.bool() else x for x in s]}


@g.builds
def _(p, x):
    return tf.ensure_shape(x, p["s"])


@cell("SequenceMask", "C02 tensor")
def g(d, opset):
    return {"ins": [t(d, d.shape(1, 2, dim=4), I32, "int", lo=0, hi=5)], "n": d.int(1, 6)}


@g.builds
def _(p, x):
    return tf.sequence_mask(x, p["n"], dtype=tf.float32)
