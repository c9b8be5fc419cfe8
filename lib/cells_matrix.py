"""Matrix, einsum, diagonal and Fourier operators (C05)."""
import string

import numpy as np
import tensorflow as tf

from core import Reject
from prog import BOOL, F16, F32, F64, I32, I64, cell, t, val

TOL = (1e-3, 1e-4)


def mm_dtype(d):
    return d.weighted([(8, F32), (2, F64), (2, I32), (1, I64)])


@cell("MatMul2", "C05 matrix", weight=5, tol=TOL)
def g(d, opset):
    m, k, n = d.int(1, 5), d.int(1, 5), d.int(1, 5)
    ta, tb = d.bool(), d.bool()
    dt = mm_dtype(d)
    a = t(d, [k, m] if ta else [m, k], dt)
    b = t(d, [n, k] if tb else [k, n], dt)
    return {"ins": [a, b], "ta": ta, "tb": tb}


@g.builds
def _(p, a, b):
    return tf.raw_ops.MatMul(a=a, b=b, transpose_a=p["ta"], transpose_b=p["tb"])


@cell("BatchMatMul", "C05 matrix", weight=6, tol=TOL)
def g(d, opset):
    m, k, n = d.int(1, 4), d.int(1, 4), d.int(1, 4)
    batch = d.shape(0, 2, dim=3)
    ba, bb = list(batch), list(batch)
    if d.prob(40):
        for i in range(len(batch)):
            w = d.int(0, 2)
            if w == 1:
                ba[i] = 1
            elif w == 2:
                bb[i] = 1
        if d.bool():
            bb = bb[d.int(0, len(bb)):]
        else:
            ba = ba[d.int(0, len(ba)):]
    dt = mm_dtype(d)
    ta, tb = d.bool(), d.bool()
    adj = d.bool() and dt in (F32, F64)
    return {"ins": [t(d, ba + ([k, m] if ta else [m, k]), dt), t(d, bb + ([n, k] if tb else [k, n]), dt)],
            "ta": ta, "tb": tb, "adj": adj, "v": d.choice(["api", "v2"])}


@g.builds
def _(p, a, b):
    if p["v"] == "v2":
        return tf.raw_ops.BatchMatMulV2(x=a, y=b, adj_x=p["ta"], adj_y=p["tb"]) if a.dtype.is_floating else \
            tf.matmul(a, b, transpose_a=p["ta"], transpose_b=p["tb"])
    if p["adj"]:
        return tf.matmul(a, b, adjoint_a=p["ta"], adjoint_b=p["tb"])
    return tf.matmul(a, b, transpose_a=p["ta"], transpose_b=p["tb"])


@cell("MatVecTensordot", "C05 matrix", weight=3, tol=TOL)
def g(d, opset):
    what = d.choice(["matvec", "dot", "outer", "norm", "l2n", "trace", "cos"])
    if what == "matvec":
        m, n, b = d.int(1, 4), d.int(1, 4), d.shape(0, 1, dim=3)
        ta = d.bool()
        return {"ins": [t(d, b + ([n, m] if ta else [m, n]), F32), t(d, b + [n], F32)], "what": what, "ta": ta}
    if what == "dot":
        r1, r2 = d.int(1, 3), d.int(1, 3)
        n = d.int(0, min(r1, r2))
        s1, s2 = d.ints(r1, 1, 3), d.ints(r2, 1, 3)
        ax1, ax2 = d.perm(r1)[:n], d.perm(r2)[:n]
        for i, j in zip(ax1, ax2):
            s2[j] = s1[i]
        return {"ins": [t(d, s1, F32, dyn="never"), t(d, s2, F32, dyn="never")], "what": what, "axes": [ax1, ax2]}
    if what == "outer":
        return {"ins": [t(d, [d.int(1, 4)], F32), t(d, [d.int(1, 4)], F32)], "what": what}
    sh = d.shape(2, 3)
    return {"ins": [t(d, sh, F32, "nonzero")], "what": what, "axis": d.int(-len(sh), len(sh) - 1), "keep": d.bool(),
            "ord": d.choice(["euclidean", 1, 2, "inf"])}


@g.builds
def _(p, *a):
    w = p["what"]
    if w == "matvec":
        return tf.linalg.matvec(a[0], a[1], transpose_a=p["ta"])
    if w == "dot":
        return tf.tensordot(a[0], a[1], p["axes"])
    if w == "outer":
        return tf.tensordot(a[0], a[1], 0)
    if w == "norm":
        o = p["ord"]
        return tf.norm(a[0], ord=np.inf if o == "inf" else o, axis=p["axis"], keepdims=p["keep"])
    if w == "l2n":
        return tf.linalg.normalize(a[0], axis=p["axis"])[0]
    if w == "trace":
        return tf.linalg.trace(a[0])
    return tf.nn.l2_normalize(a[0], axis=p["axis"])


# ------------------------------------------------------------------ einsum

@cell("Einsum", "C05 matrix", minop=12, weight=14, tol=TOL)
def g(d, opset):
    ops = d.weighted([(2, 1), (6, 2), (1, 3)])
    pool = list(string.ascii_lowercase[:d.int(2, 5)])
    if d.prob(25):              # upper case letters, perhaps next to the same lower case one
        for i in range(len(pool)):
            if d.bool():
                pool[i] = (pool[i] if i == 0 or d.bool() else pool[i - 1].lower()).upper()
        pool = list(dict.fromkeys(pool))
    ell = d.prob(20)
    dims = {c: d.int(1, 4) for c in pool}
    batch = d.shape(0, 2, dim=3) if ell else []
    terms, shapes, used = [], [], []
    for i in range(ops):
        n = d.int(0 if ell else 1, min(4, len(pool)))
        p = [pool[k] for k in d.perm(len(pool))[:n]]
        if i and d.prob(70) and used:           # share a letter
            c = d.choice(used)
            if c not in p:
                p = p[:3] + [c]
                p = [p[k] for k in d.perm(len(p))]
        used += [c for c in p if c not in used]
        sh = [dims[c] for c in p]
        if ell and d.prob(80):
            at = d.int(0, len(p))
            b = list(batch)                     # ORT does not broadcast ellipses
            terms.append("".join(p[:at]) + "..." + "".join(p[at:]))
            sh = sh[:at] + b + sh[at:]
        else:
            terms.append("".join(p))
        shapes.append(sh)
    has_ell = any("..." in x for x in terms)
    out = [c for c in used if d.prob(55)]
    if ops == 1 and has_ell:
        out = list(used)
    if ops > 1 or len(out) == len(used):        # ORT's Einsum cannot both reduce and permute one operand
        out = [out[k] for k in d.perm(len(out))]
    before = sum(c in terms[0].split(".")[0] for c in out)
    at = before if ops == 1 and len(out) < len(used) else d.int(0, len(out))
    o = "".join(out[:at]) + ("..." if has_ell else "") + "".join(out[at:])
    eq = ",".join(terms)
    implicit = d.prob(10) and not has_ell
    if not implicit:
        eq += "->" + o
    # ORT has no int32 kernel for repeated letters and its shape inference does not broadcast ellipses
    dt = d.weighted([(6, F32), (1, F64), (1, I32 if ops == 1 else F64)]) if not has_ell else F32
    return {"ins": [t(d, s, dt, dyn="never" if has_ell else "maybe") for s in shapes], "eq": eq}


@g.builds
def _(p, *a):
    return tf.einsum(p["eq"], *a)


# ------------------------------------------------------------------ diagonals and bands

@cell("BandPart", "C05 matrix", minop=11, weight=4)
def g(d, opset):
    sh = d.shape(0, 2, dim=3) + [d.int(1, 5), d.int(1, 5)]
    dt = d.weighted([(5, F32), (2, I32), (1, I64), (1, BOOL), (1, F64)])
    cst = "always" if d.prob(70) else "never"
    idt = d.choice([I32, I64])
    kind = "special" if dt in (F32, F64) and d.prob(30) else None
    return {"ins": [t(d, sh, dt, kind), val(d.int(-1, sh[-2]), idt, const=cst), val(d.int(-1, sh[-1]), idt, const=cst)]}


@g.builds
def _(p, x, lo, hi):
    return tf.linalg.band_part(x, lo, hi)


ALIGN = ["LEFT_RIGHT", "RIGHT_LEFT", "LEFT_LEFT", "RIGHT_RIGHT"]


def k_of(d, r, c):
    """Diagonals lo..hi of an r x c matrix."""
    lo = d.int(-(r - 1), c - 1)
    hi = lo if d.prob(35) else d.int(lo, c - 1)
    return lo, hi


def k_val(d, lo, hi, cst):
    if lo == hi and d.prob(70):
        return val(d.choice([lo, [lo]]), I32, const=cst)
    return val([lo, hi], I32, const=cst)


@cell("DiagPart", "C05 matrix", minop=12, weight=6)
def g(d, opset):
    r, c = d.int(1, 5), d.int(1, 5)
    sh = d.shape(0, 2, dim=3) + [r, c]
    dt = d.weighted([(5, F32), (1, I32), (1, F64)])
    lo, hi = k_of(d, r, c)
    cst = "always" if d.prob(70) else "never"
    pad = val(d.choice([0, -3, 7]), dt, const="always" if d.prob(70) else "never")
    v = d.choice(["v1", "v2", "v3", "api"])
    if v == "v1":
        return {"ins": [t(d, sh, dt)], "v": v}
    return {"ins": [t(d, sh, dt), k_val(d, lo, hi, cst), pad], "v": v, "align": d.choice(ALIGN)}


@g.builds
def _(p, x, *a):
    v = p["v"]
    if v == "v1":
        return tf.raw_ops.MatrixDiagPart(input=x)
    if v == "v2":
        return tf.raw_ops.MatrixDiagPartV2(input=x, k=a[0], padding_value=a[1])
    if v == "v3":
        return tf.raw_ops.MatrixDiagPartV3(input=x, k=a[0], padding_value=a[1], align=p["align"])
    return tf.linalg.diag_part(x, k=a[0], padding_value=a[1], align=p["align"])


@cell("Diag", "C05 matrix", minop=12, weight=4)
def g(d, opset):
    dt = d.weighted([(5, F32), (1, I32), (1, F64)])
    v = d.choice(["v1", "v2", "v3", "api"])
    batch = d.shape(0, 1, dim=3)
    if v == "v1":
        return {"ins": [t(d, batch + [d.int(1, 4)], dt)], "v": v}
    n = d.int(1, 4)
    cst = "always" if d.prob(70) else "never"
    lo = d.int(-2, 2)
    hi = lo if d.prob(50) else min(lo + d.int(1, 2), 3)
    nd = hi - lo + 1
    # the smallest square matrix which holds these diagonals with the longest of length n
    if lo <= 0 <= hi:
        size = n
    else:
        size = n + min(abs(lo), abs(hi))
    if size <= max(abs(lo), abs(hi)):
        size = max(abs(lo), abs(hi)) + 1
        n = size if lo <= 0 <= hi else size - min(abs(lo), abs(hi))
    rows, cols = size, size
    what = d.int(0, 2)
    if what == 0:
        rc = [-1, -1]
    elif what == 1:
        rc = [rows, cols]
    else:
        rc = [rows, cols]
        e = d.int(1, 2)
        if hi <= 0 and d.bool():        # more columns do not make sub-diagonals longer
            pass
        if d.bool() and lo >= 0:
            rc[0] += e
        elif hi <= 0:
            rc[1] += e
    if d.avoid("matrix-diag-several-diagonals-tall", rc[0] > rc[1] and lo < hi and lo < 0):
        rc = [rows, cols]
    dsh = batch + ([nd] if nd > 1 else []) + [n]
    pad = val(d.choice([0, -3, 7]), dt, const="always" if d.prob(70) else "never")
    return {"ins": [t(d, dsh, dt, dyn="never"), k_val(d, lo, hi, cst), val(rc[0], I32, const=cst), val(rc[1], I32, const=cst), pad],
            "v": v, "align": d.choice(ALIGN)}


@g.builds
def _(p, x, *a):
    v = p["v"]
    if v == "v1":
        return tf.raw_ops.MatrixDiag(diagonal=x)
    k, r, c, pad = a
    if v == "v2":
        return tf.raw_ops.MatrixDiagV2(diagonal=x, k=k, num_rows=r, num_cols=c, padding_value=pad)
    if v == "v3":
        return tf.raw_ops.MatrixDiagV3(diagonal=x, k=k, num_rows=r, num_cols=c, padding_value=pad, align=p["align"])
    return tf.linalg.diag(x, k=k, num_rows=r, num_cols=c, padding_value=pad, align=p["align"])


@cell("SetDiag", "C05 matrix", minop=12, weight=2)
def g(d, opset):
    r, c = d.int(1, 5), d.int(1, 5)
    batch = d.shape(0, 1, dim=3)
    dt = d.weighted([(5, F32), (1, I32), (1, F64)])
    lo, hi = k_of(d, r, c)
    if d.prob(40):
        lo = hi = 0
    if d.avoid("matrix-diag-several-diagonals-tall", r > c and lo < hi and lo < 0):
        lo = hi
    lens = [min(r + min(k, 0), c - max(k, 0)) for k in range(lo, hi + 1)]
    n = max(lens)
    cst = "always" if d.prob(80) else "never"
    dsh = batch + ([hi - lo + 1] if hi > lo else []) + [n]
    return {"ins": [t(d, batch + [r, c], dt, dyn="never"), t(d, dsh, dt, dyn="never"), k_val(d, lo, hi, cst)], "align": d.choice(ALIGN)}


@g.builds
def _(p, x, y, k):
    return tf.raw_ops.MatrixSetDiagV3(input=x, diagonal=y, k=k, align=p["align"])


@cell("EyeMisc", "C05 matrix", minop=11, weight=2)
def g(d, opset):
    what = d.choice(["eye", "eyebatch", "eyedyn"])
    dt = d.choice([F32, I32, F64])
    if what == "eyedyn":
        return {"ins": [val(d.int(1, 4), I32, const="never"), val(d.int(1, 4), I32, const="never")], "what": what, "dt": F32}
    return {"ins": [t(d, [1], F32, const="never")], "what": what, "dt": dt, "n": d.int(1, 4), "m": d.int(1, 4), "b": d.int(1, 3)}


@g.builds
def _(p, *a):
    dt = tf.as_dtype(p["dt"])
    if p["what"] == "eyedyn":
        return tf.eye(a[0], num_columns=a[1], dtype=dt)
    e = tf.eye(p["n"], num_columns=p["m"], dtype=dt, batch_shape=[p["b"]] if p["what"] == "eyebatch" else None)
    return e + tf.cast(a[0][0], dt)


@cell("Determinant", "C05 matrix", minop=11, weight=1, tol=(5e-3, 1e-3))
def g(d, opset):
    n = d.int(1, 4)
    return {"ins": [t(d, d.shape(0, 2, dim=3) + [n, n], F32, "small")]}


@g.builds
def _(p, x):
    return tf.linalg.det(x)


# ------------------------------------------------------------------ Fourier transforms

@cell("RFFT", "C05 matrix", minop=10, weight=5, tol=(2e-3, 1e-4))
def g(d, opset):
    sh = d.shape(0, 2, dim=3) + [d.int(1, 12)]
    n = d.int(1, sh[-1]) if d.prob(50) else sh[-1]
    return {"ins": [t(d, sh, F32, const="never", dyn="never")], "n": n}


@g.builds
def _(p, x):
    return tf.abs(tf.signal.rfft(x, fft_length=[p["n"]]))


@cell("RFFT2D", "C05 matrix", minop=10, weight=3, tol=(2e-3, 1e-4))
def g(d, opset):
    sh = d.shape(0, 1, dim=3) + [d.int(1, 6), d.int(1, 6)]
    ln = [d.int(1, s) if d.prob(40) else s for s in sh[-2:]]
    if d.avoid("rfft2d-last-length-one", ln[-1] == 1):
        sh[-1] = ln[-1] = max(2, sh[-1])
    return {"ins": [t(d, sh, F32, const="never", dyn="never")], "n": ln}


@g.builds
def _(p, x):
    return tf.abs(tf.signal.rfft2d(x, fft_length=p["n"]))
