"""Constants that are computed: TensorFlow expressions of constants whose value is a given array."""
import numpy as np
import tensorflow as tf

import prog


def kinds_for(v, dtype):
    out = ["identity", "reshape", "transpose", "slice"]
    num = dtype not in (prog.BOOL, prog.STR)
    if v.ndim:
        out += ["concat", "stack", "gather", "rev", "split"]
    if num and dtype in (prog.F32, prog.F64, prog.I32, prog.I64):
        out += ["add", "mul", "sub", "cast", "max", "neg"]
    if dtype in (prog.I32, prog.I64):
        out += ["floordiv"]
        if v.ndim == 1 and v.size >= 2 and len(set(np.diff(v).tolist())) == 1 and v[1] != v[0]:
            out += ["range"] * 3
        if v.ndim == 1:
            out += ["listdiff"] * 2
            if (v > 0).all() and 0 < v.size < 6 and np.prod(v.astype(np.float64)) < 5000:
                out += ["shape", "shapeof"] * 2
        if v.ndim == 0 and 0 < v < 50:
            out += ["dim", "size", "dimof"] * 2
        if v.ndim == 0 and 0 <= v < 5:
            out += ["rank"]
    if dtype in (prog.F32, prog.F64) and (v >= 0).all() and v.size and float(np.abs(np.sqrt(v * v) - v).max()) == 0:
        out += ["sqrt"]
    if dtype == prog.BOOL:
        out += ["less", "greater_equal", "not"]
    if v.size and (v == v.reshape(-1)[0]).all():
        out += ["fill", "tile"]
    if num and v.ndim == 1 and v.size >= 2:
        out += ["where"]
    return out


def c(v, dtype):
    return prog.to_tensor(np.asarray(v), dtype)


def build(kind, v, dtype, extra):
    """The expression; `extra(shape)` gives a placeholder of that static shape."""
    dt = prog.tf_dtype(dtype)
    if kind == "identity":
        return tf.identity(c(v, dtype))
    if kind == "reshape":
        return tf.reshape(c(v.reshape(-1), dtype), list(v.shape))
    if kind == "transpose":
        p = list(range(v.ndim))[::-1]
        return tf.transpose(c(v.transpose(p), dtype), np.argsort(p).tolist() if p else None)
    if kind == "slice":
        big = np.concatenate([v.reshape(1, *v.shape), v.reshape(1, *v.shape)])
        return c(big, dtype)[1]
    if kind == "concat":
        k = (v.shape[0] + 1) // 2
        return tf.concat([c(v[:k], dtype), c(v[k:], dtype)], 0)
    if kind == "stack":
        if not v.shape[0]:
            return c(v, dtype)
        return tf.stack([c(v[i], dtype) for i in range(v.shape[0])])
    if kind == "gather":
        p = np.random.RandomState(v.size).permutation(v.shape[0])
        w = np.empty_like(v)
        w[p] = v
        return tf.gather(c(w, dtype), tf.constant(p.astype(np.int32)))
    if kind == "rev":
        return tf.reverse(c(v[::-1], dtype), [0])
    if kind == "split":
        return tf.split(tf.concat([c(v, dtype), c(v, dtype)], 0), 2, 0)[1]
    if kind == "add":
        return tf.add(c(v, dtype), c(np.zeros([v.shape[-1]] if v.ndim else [], v.dtype), dtype)) if dtype in prog.FLOATS \
            else tf.add(c(v - 3, dtype), c(np.array(3, v.dtype), dtype))
    if kind == "sub":
        return tf.subtract(c(v, dtype), c(np.zeros(v.shape, v.dtype), dtype)) if dtype in prog.FLOATS \
            else tf.subtract(c(v + 5, dtype), c(np.array(5, v.dtype), dtype))
    if kind == "mul":
        return tf.multiply(c(v * 2, dtype), c(np.array(0.5, v.dtype), dtype)) if dtype in prog.FLOATS and np.isfinite(v * 2).all() \
            else tf.multiply(c(v, dtype), c(np.ones([1] * v.ndim, v.dtype), dtype))
    if kind == "floordiv":
        return tf.math.floordiv(c(v * 3 + 1, dtype), c(np.array(3, v.dtype), dtype))
    if kind == "neg":
        return tf.negative(c(-v, dtype))
    if kind == "max":
        return tf.maximum(c(v, dtype), c(v, dtype))
    if kind == "cast":
        other = {prog.F32: prog.F64, prog.F64: prog.F64, prog.I32: prog.I64, prog.I64: prog.I64}[dtype]
        if dtype == prog.I64 and np.abs(v).max(initial=0) < 2**31:
            other = prog.I32
        if dtype in (prog.I32, prog.I64) and np.abs(v).max(initial=0) < 1000:
            # truncation towards zero
            return tf.cast(c(v.astype(np.float32) + np.where(v < 0, -0.75, 0.75).astype(np.float32), prog.F32), dt)
        return tf.cast(c(v.astype(other), other), dt)
    if kind == "range":
        step = int(v[1]) - int(v[0])
        return tf.range(c(v[0], dtype), c(np.array(int(v[-1]) + (1 if step > 0 else -1), v.dtype), dtype), c(np.array(step, v.dtype), dtype))
    if kind == "listdiff":
        other = np.array([x for x in range(-3, 12) if x not in set(v.tolist())][:4], v.dtype)
        mixed = np.concatenate([other[:1], v, other[1:]]) if v.size else other
        return tf.raw_ops.ListDiff(x=c(mixed, dtype), y=c(other, dtype)).out
    if kind == "shape":
        return tf.shape(c(np.zeros(v.tolist(), np.float32), prog.F32), out_type=dt)
    if kind == "shapeof":
        return tf.shape(extra(v.tolist()), out_type=dt)
    if kind == "dim":
        return tf.shape(c(np.zeros([2, int(v)], np.float32), prog.F32), out_type=dt)[1]
    if kind == "dimof":
        return tf.shape(extra([2, int(v), 1]), out_type=dt)[-2]
    if kind == "size":
        return tf.size(c(np.zeros([1, int(v)], np.float32), prog.F32), out_type=dt)
    if kind == "rank":
        return tf.cast(tf.rank(c(np.zeros([1] * int(v), np.float32), prog.F32)), dt)
    if kind == "sqrt":
        return tf.sqrt(c(v * v, dtype))
    if kind == "less":
        return tf.less(c(np.where(v, 1, 4).astype(np.int32), prog.I32), tf.constant(3))
    if kind == "greater_equal":
        return tf.greater_equal(c(np.where(v, 3, 2).astype(np.float32), prog.F32), tf.constant(3.0))
    if kind == "not":
        return tf.logical_not(c(~v, dtype))
    if kind == "fill":
        return tf.fill(list(v.shape), c(v.reshape(-1)[0], dtype))
    if kind == "tile":
        return tf.tile(c(v.reshape(-1)[:1].reshape([1] * v.ndim), dtype), list(v.shape)) if v.ndim else c(v, dtype)
    if kind == "where":
        m = np.arange(v.size) % 2 == 0
        return tf.where(tf.constant(m), c(np.where(m, v, 7).astype(v.dtype), dtype), c(np.where(m, 2, v).astype(v.dtype), dtype))
    raise AssertionError(kind)
