"""Segment, set, ragged, sparse and permutation operators (C06)."""
import numpy as np
import tensorflow as tf

from core import Reject
from prog import BOOL, F32, F64, I8, I32, I64, STR, cell, t, val

TOL = (1e-4, 1e-5)
IDX = (I32, I64)


def num(d):
    return d.weighted([(5, F32), (1, F64), (2, I32), (1, I64)])


def cv(d, value, dtype, p=30):
    """An index operand, mostly computed at run time."""
    return val(value, dtype, const="always" if d.prob(p) else "never")


# ------------------------------------------------------------------ segments

def sorted_ids(d, n, gaps):
    ids, cur = [], d.int(0, 1) if gaps else 0
    for _ in range(n):
        ids.append(cur)
        if d.prob(45):
            cur += d.int(1, 3 if gaps else 1)
    return ids


@cell("Segment", "C06 ragged", minop=11, weight=8, tol=TOL)
def g(d, opset):
    op = d.choice(["Sum", "Prod", "Max", "Min", "Mean"])
    n = d.int(1, 6)
    dt = num(d) if op != "Mean" else F32
    if op == "Prod" and dt == F64:          # onnxruntime has no kernel
        dt = F32
    ids = sorted_ids(d, n, d.prob(60))
    return {"ins": [t(d, [n] + d.shape(0, 2, dim=3), dt), cv(d, ids, d.choice(IDX), 20)], "op": op}


@g.builds
def _(p, x, ids):
    return getattr(tf.raw_ops, "Segment" + p["op"])(data=x, segment_ids=ids)


@cell("UnsortedSegment", "C06 ragged", minop=11, weight=8, tol=TOL)
def g(d, opset):
    op = d.choice(["Sum", "Prod", "Max", "Min"])
    n = d.int(1, 6)
    m = d.int(1, 6)
    dt = num(d)
    if op == "Prod" and dt == F64:
        dt = F32
    ids = d.ints(n, 0, m - 1)
    return {"ins": [t(d, [n] + d.shape(0, 2, dim=3), dt), cv(d, ids, d.choice(IDX), 20), cv(d, m, d.choice(IDX), 60)],
            "op": op}


@g.builds
def _(p, x, ids, m):
    return getattr(tf.raw_ops, "UnsortedSegment" + p["op"])(data=x, segment_ids=ids, num_segments=m)


@cell("SparseSegment", "C06 ragged", minop=11, weight=8, tol=TOL)
def g(d, opset):
    op = d.choice(["sum", "mean", "sqrt_n"])
    rows, n = d.int(1, 5), d.int(1, 6)
    dt = F32
    with_num = d.prob(50)
    ids = sorted_ids(d, n, d.prob(60))
    ins = [t(d, [rows] + d.shape(0, 2, dim=3), dt), cv(d, d.ints(n, 0, rows - 1), d.choice(IDX), 20),
           cv(d, ids, d.choice(IDX), 20)]
    if with_num:
        ins.append(cv(d, max(ids) + 1 + d.int(0, 2), I32, 60))
    return {"ins": ins, "op": op}


@g.builds
def _(p, x, idx, ids, m=None):
    return getattr(tf.sparse, "segment_" + p["op"])(x, idx, ids, num_segments=m)


# ------------------------------------------------------------------ unique, bincount, partition, stitch

@cell("UniqueOp", "C06 ragged", minop=11, weight=5)
def g(d, opset):
    dt = d.weighted([(3, F32), (3, I32), (3, I64), (1, F64), (1, I8), (1, "uint8"), (1, STR)])
    n = d.int(1, 8)
    if dt == STR:
        x = val([d.choice(["a", "b", "", "ab"]) for _ in range(n)], STR, const="never")
    elif dt in (F32, F64):
        x = val([d.int(-3, 3) / 2 for _ in range(n)], dt, const="never")
    elif dt == "uint8":
        x = val(d.ints(n, 0, 4), dt, const="never")
    else:
        x = val(d.ints(n, -3, 3), dt, const="never")
    return {"ins": [x], "idx": d.choice(IDX), "counts": d.bool(), "use": d.int(1, 7)}


@g.builds
def _(p, x):
    idx = tf.as_dtype(p["idx"])
    r = list(tf.unique_with_counts(x, out_idx=idx) if p["counts"] else tf.unique(x, out_idx=idx))
    return [v for i, v in enumerate(r) if p["use"] >> i & 1] or r


@cell("BincountOp", "C06 ragged", minop=11, weight=6)
def g(d, opset):
    rank = d.int(1, 2)
    sh = [d.int(1, 4), d.int(1, 5)] if rank == 2 else [d.int(1, 8)]
    hi = d.int(0, 5)
    x = np.array(d.ints(int(np.prod(sh)), 0, hi)).reshape(sh).tolist()
    which = d.choice(["raw", "dense", "math"])
    if which == "raw" and rank == 2:
        which = "dense"
    return {"ins": [cv(d, x, I32 if which == "raw" else d.choice(IDX), 0)], "which": which, "size": d.int(1, 7),
            "binary": d.prob(30), "dt": d.choice([I32, I64, F32]), "minl": d.choice([None, 0, 3, 8]),
            "maxl": d.choice([None, 2, 4, 9])}


@g.builds
def _(p, x):
    if p["which"] == "raw":
        return tf.raw_ops.Bincount(arr=x, size=p["size"], weights=tf.zeros([0], tf.as_dtype(p["dt"])))
    if p["which"] == "dense":
        return tf.raw_ops.DenseBincount(input=x, size=tf.cast(p["size"], x.dtype), binary_output=p["binary"],
                                        weights=tf.zeros([0], tf.as_dtype(p["dt"])))
    return tf.math.bincount(x, minlength=p["minl"], maxlength=p["maxl"], axis=-1 if len(x.shape) == 2 else None,
                            binary_output=p["binary"] and len(x.shape) == 2, dtype=tf.as_dtype(p["dt"]))


@cell("DynPartition", "C06 ragged", minop=11, weight=5)
def g(d, opset):
    n, k = d.int(1, 6), d.int(1, 4)
    dt = d.choice([F32, F32, I32, I64, F64, BOOL])
    return {"ins": [t(d, [n] + d.shape(0, 2, dim=3), dt), cv(d, d.ints(n, 0, k - 1), I32, 20)], "k": k}


@g.builds
def _(p, x, part):
    return list(tf.dynamic_partition(x, part, p["k"]))


@cell("DynStitch", "C06 ragged", minop=11, weight=5)
def g(d, opset):
    parts = d.int(1, 3)
    how = d.weighted([(4, "perm"), (3, "dup")])
    lens = [d.int(1 if i == 0 else 0, 4) for i in range(parts)]
    n = sum(lens)
    idx = d.perm(n)
    if how == "dup":                        # repeated targets: the last one wins; no gaps (gaps are undefined)
        m = d.int(1, n)
        idx = d.perm(m) + [d.int(0, m - 1) for _ in range(n - m)]
        idx = [idx[k] for k in d.perm(n)]
    tail = d.shape(0, 2, dim=3)
    dt = d.choice([F32, F32, I32, I64])
    ins, at = [], 0
    for m in lens:
        ins.append(cv(d, np.array(idx[at:at + m], dtype=np.int32), I32, 20))
        at += m
    ins += [t(d, [m] + tail, dt, dyn="never") for m in lens]
    return {"ins": ins, "parallel": how == "perm" and d.bool()}


@g.builds
def _(p, *a):
    k = len(a) // 2
    f = tf.raw_ops.ParallelDynamicStitch if p["parallel"] else tf.raw_ops.DynamicStitch
    return f(indices=list(a[:k]), data=list(a[k:]))


@cell("PartitionThenStitch", "C06 ragged", minop=11, weight=2)
def g(d, opset):
    n, k = d.int(1, 6), d.int(1, 3)
    return {"ins": [t(d, [n] + d.shape(0, 2, dim=3), F32, dyn="never"), cv(d, d.ints(n, 0, k - 1), I32, 0)], "k": k,
            "n": n, "m": d.int(1, 4)}


@g.builds
def _(p, x, part):
    parts = tf.dynamic_partition(x, part, p["k"])
    idx = tf.dynamic_partition(tf.range(p["n"]), part, p["k"])
    return tf.dynamic_stitch(idx, [v * float(i + 2) for i, v in enumerate(parts)])


@cell("InvertPerm", "C06 ragged", minop=11, weight=3)
def g(d, opset):
    return {"ins": [cv(d, d.perm(d.int(1, 9)), d.choice(IDX), 10)]}


@g.builds
def _(p, x):
    return tf.math.invert_permutation(x)


@cell("ReverseSeq", "C06 ragged", minop=10, weight=4)
def g(d, opset):
    sh = [d.int(1, 4), d.int(1, 4)] + d.shape(0, 2, dim=3)
    ta, ba = d.choice([(1, 0), (0, 1)])
    return {"ins": [t(d, sh, d.choice([F32, F32, I32, I64])), cv(d, d.ints(sh[ba], 1, sh[ta]), d.choice(IDX), 20)],
            "ta": ta, "ba": ba}


@g.builds
def _(p, x, n):
    return tf.reverse_sequence(x, n, seq_axis=p["ta"], batch_axis=p["ba"])


# ------------------------------------------------------------------ ragged

def splits(d, rows, maxlen=4, empty=35):
    lens = [0 if d.prob(empty) else d.int(1, maxlen) for _ in range(rows)]
    return [0] + np.cumsum(lens, dtype=np.int64).tolist()


def ragged_parts(d, depth):
    """Nested row splits, outermost first, where something is left at the innermost level."""
    out, rows = [], d.int(1, 4)
    for _ in range(depth):
        s = splits(d, rows)
        if s[-1] == 0:                       # all rows empty: give one row something
            k = d.int(0, rows - 1)
            s = [0] * (k + 1) + [d.int(1, 3)] * (rows - k)
        out.append(s)
        rows = s[-1]
    return out, rows


@cell("RaggedToDense", "C06 ragged", minop=11, weight=8)
def g(d, opset):
    depth = d.weighted([(4, 1), (3, 2), (1, 3)])
    sp, n = ragged_parts(d, depth)
    tail = d.shape(0, 1, dim=3) if d.prob(30) else []
    dt = d.choice([F32, F32, I32, I64])
    default = d.choice([0, -1, 7])
    shape = None
    if d.prob(35):
        full = [len(sp[0]) - 1] + [max(b - a for a, b in zip(s, s[1:])) for s in sp]
        shape = [None if d.prob(40) else max(1, f + d.int(-2, 2)) for f in full] + [None if d.bool() else x for x in tail]
    it = d.choice(IDX)
    how = d.choice(["splits", "splits", "rowids"]) if depth == 1 or not tail else "splits"
    if how == "rowids":
        ids = [np.repeat(np.arange(len(s) - 1), np.diff(s)).tolist() for s in sp]
        parts = [cv(d, i, it, 10) for i in ids]
    else:
        parts = [cv(d, s, it, 10) for s in sp]
    return {"ins": [t(d, [n] + tail, dt, dyn="never", const="never")] + parts, "default": default, "shape": shape, "how": how,
            "rows": len(sp[0]) - 1, "it": it, "rowdims": [len(s) - 1 for s in sp]}


def ragged_of(p, v, parts):
    r = v
    for k, s in reversed(list(enumerate(parts))):
        if p["how"] == "rowids":
            r = tf.RaggedTensor.from_value_rowids(r, s, nrows=tf.constant(p["rowdims"][k], tf.as_dtype(p["it"])), validate=False)
        else:
            r = tf.RaggedTensor.from_row_splits(r, s, validate=False)
    return r


@g.builds
def _(p, v, *parts):
    return ragged_of(p, v, parts).to_tensor(default_value=tf.constant(p["default"], v.dtype), shape=p["shape"])


@cell("RaggedToSparse", "C06 ragged", minop=11, weight=5)
def g(d, opset):
    depth = d.weighted([(4, 1), (3, 2), (1, 3)])
    sp, n = ragged_parts(d, depth)
    it = d.choice(IDX)
    return {"ins": [t(d, [n], d.choice([F32, I32, I64]), dyn="never", const="never")] + [cv(d, s, it, 10) for s in sp], "how": "splits"}


@g.builds
def _(p, v, *parts):
    s = ragged_of(p, v, parts).to_sparse()
    return [s.indices, s.values, s.dense_shape]


@cell("RaggedGatherOp", "C06 ragged", minop=11, weight=6)
def g(d, opset):
    sp, n = ragged_parts(d, 1)
    rows = len(sp[0]) - 1
    k = d.int(1, 5)
    it = d.choice(IDX)
    return {"ins": [t(d, [n], d.choice([F32, I32, I64]), dyn="never", const="never"), cv(d, sp[0], it, 10),
                    cv(d, d.ints(k, 0, rows - 1), d.choice(IDX), 20)], "how": "splits"}


@g.builds
def _(p, v, s, i):
    r = tf.gather(ragged_of(p, v, [s]), i)
    return [r.row_splits, r.values]


@cell("RaggedRangeOp", "C06 ragged", minop=11, weight=6, tol=TOL)
def g(d, opset):
    n = d.int(1, 4)
    dt = d.choice([I32, I64, F32])
    sc = [d.prob(25) for _ in range(3)]
    st = [d.int(-5, 5) for _ in range(n)]
    dl = [d.choice([1, 1, 2, 3, -1, -2]) for _ in range(n)]
    li = [a + d.int(-7, 7) for a in st]
    if dt == F32:
        st, li, dl = [x / 2 for x in st], [x / 2 for x in li], [x / 2 for x in dl]
    if all(sc):
        sc[d.int(0, 2)] = False
    pick = [v[0] if s else v for v, s in zip((st, li, dl), sc)]
    # keep something in some row
    s0, l0, d0 = [np.broadcast_to(np.array(v, dtype=float), [n]) for v in pick]
    if not (np.ceil((l0 - s0) / d0) > 0).any():
        pick = [0, [3] * n, 1] if not sc[1] else [[0] * n, 3, 1]
    return {"ins": [cv(d, v, dt, 20) for v in pick]}


@g.builds
def _(p, s, l, dl):
    r = tf.ragged.range(s, l, dl)
    return [r.row_splits, r.values]


@cell("RaggedMap", "C06 ragged", minop=13, weight=2, tol=TOL)
def g(d, opset):
    sp, n = ragged_parts(d, 1)
    return {"ins": [t(d, [n], F32, dyn="never", const="never"), cv(d, sp[0], I64, 0)], "how": "splits", "w": d.int(0, 1)}


@g.builds
def _(p, v, s):
    r = ragged_of(p, v, [s])
    if p["w"] == 0:
        return tf.map_fn(lambda row: tf.reduce_sum(row) + 1.0, r, fn_output_signature=tf.float32)
    return tf.map_fn(lambda row: row * 2.0 - 1.0, r, fn_output_signature=tf.RaggedTensorSpec([None], tf.float32, ragged_rank=0)).to_tensor()


# ------------------------------------------------------------------ sparse

def coords(d, shape, n):
    flat = sorted(d.perm(int(np.prod(shape)))[:n])
    return np.array([np.unravel_index(f, shape) for f in flat], dtype=np.int64).reshape(n, len(shape)).tolist()


@cell("SparseToDenseOp", "C06 ragged", minop=11, weight=5)
def g(d, opset):
    sh = d.shape(1, 3, dim=4)
    n = d.int(2 if int(np.prod(sh)) > 1 else 1, max(1, min(6, int(np.prod(sh)))))
    dt = d.choice([F32, I32, I64])
    return {"ins": [cv(d, coords(d, sh, n), I64, 10), t(d, [n], dt, dyn="never", const="never"), cv(d, sh, I64, 50)], "default": d.choice([0, -2])}


@g.builds
def _(p, i, v, s):
    return tf.sparse.to_dense(tf.sparse.SparseTensor(i, v, s), default_value=tf.constant(p["default"], v.dtype))


@cell("SparseReshapeOp", "C06 ragged", minop=11, weight=5)
def g(d, opset):
    sh = d.shape(1, 3, dim=4)
    size = int(np.prod(sh))
    n = d.int(1, min(6, size))
    new, rest = [], size
    for _ in range(d.int(0, 2)):
        k = d.choice([k for k in range(1, rest + 1) if rest % k == 0])
        new.append(k)
        rest //= k
    new.append(rest)
    if d.bool():
        new[d.int(0, len(new) - 1)] = -1
    return {"ins": [cv(d, coords(d, sh, n), I64, 10), cv(d, sh, I64, 50), cv(d, new, I64, 50)]}


@g.builds
def _(p, i, s, ns):
    return list(tf.raw_ops.SparseReshape(input_indices=i, input_shape=s, new_shape=ns))


@cell("SparseFill", "C06 ragged", minop=11, weight=4)
def g(d, opset):
    sh = [d.int(1, 5), d.int(1, 4)]
    n = d.int(1, min(6, sh[0] * sh[1]))
    dt = d.choice([F32, I32, I64])
    return {"ins": [cv(d, coords(d, sh, n), I64, 10), t(d, [n], dt, dyn="never", const="never"), cv(d, sh, I64, 50)], "default": d.choice([0, -2])}


@g.builds
def _(p, i, v, s):
    r, empty = tf.sparse.fill_empty_rows(tf.sparse.SparseTensor(i, v, s), tf.constant(p["default"], v.dtype))
    return [tf.sparse.to_dense(tf.sparse.SparseTensor(r.indices, r.values, r.dense_shape), 0, validate_indices=False), empty]


# ------------------------------------------------------------------ sets

@cell("SetOp", "C06 ragged", minop=11, weight=6)
def g(d, opset):
    lead = d.shape(1, 2, dim=3)
    dt = d.choice([I64, I32])
    na, nb = d.int(1, 5), d.int(1, 5)
    n = int(np.prod(lead))
    a = np.array(d.ints(n * na, 0, 5)).reshape(lead + [na])
    b = np.array(d.ints(n * nb, 0, 5)).reshape(lead + [nb])
    op = d.choice(["inter", "diff", "union", "rdiff"])
    fa, fb = [set(r) for r in a.reshape(n, na).tolist()], [set(r) for r in b.reshape(n, nb).tolist()]
    f = {"inter": lambda x, y: x & y, "diff": lambda x, y: x - y, "union": lambda x, y: x | y, "rdiff": lambda x, y: y - x}[op]
    if not any(f(x, y) for x, y in zip(fa, fb)):
        op = "union"
    return {"ins": [cv(d, a.tolist(), dt, 10), cv(d, b.tolist(), dt, 10)], "op": op}


@g.builds
def _(p, a, b):
    op = p["op"]
    if op == "inter":
        s = tf.sets.intersection(a, b)
    elif op == "union":
        s = tf.sets.union(a, b)
    else:
        s = tf.sets.difference(a, b, aminusb=op == "diff")
    return [s.indices, s.values, s.dense_shape]
