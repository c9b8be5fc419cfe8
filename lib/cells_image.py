"""Image and detection operators (C04)."""
import numpy as np
import tensorflow as tf

from core import Reject
from prog import BOOL, F16, F32, F64, I32, I64, U8, cell, is_float, make, t, val


def img(d, c=None, hi=7, dtype=F32, kind=None, n=None, **kw):
    return t(d, [n or d.int(1, 2), d.int(1, hi), d.int(1, hi), c or d.int(1, 3)], dtype, kind, **kw)


# ------------------------------------------------------------------ resizing

def resize_gen(d, op):
    x = img(d)
    mode = d.weighted([(3, "half"), (2, "plain"), (2, "align")])
    h, w = x["shape"][1:3]
    kind = d.int(0, 3)
    if kind == 0:
        k = d.int(1, 3)
        size = [h * k, w * d.int(1, 3)]
    elif kind == 1 and h % 2 == 0:
        size = [h // 2, w]
    else:
        size = [d.int(1, 12), d.int(1, 12)]
    if op == "ResizeArea":
        mode = d.choice(["plain", "align"])
        if d.avoid("resize-area-not-integer-upscale", size[0] % h != 0 or size[1] % w != 0 or mode == "align"):
            mode, size = "plain", [h * d.int(1, 3), w * d.int(1, 3)]
    cst = "always" if d.prob(75) else "never"
    if op == "ResizeNearestNeighbor" and d.prob(25):
        x["dtype"], x["kind"] = d.choice([U8, I32]), "int"
    elif op in ("ResizeBilinear", "ResizeBicubic") and d.prob(20):
        x["dtype"] = d.choice([U8, I32, F16, F64])
        if not is_float(x["dtype"]):
            x["kind"] = "int"
    return {"ins": [x, val(size, I32, const=cst)], "op": op, "mode": mode}


def resize_build(p, x, size):
    kw = {} if p["op"] == "ResizeArea" else {"half_pixel_centers": p["mode"] == "half"}
    return getattr(tf.raw_ops, p["op"])(images=x, size=size, align_corners=p["mode"] == "align", **kw)


@cell("ResizeOp", "C04 image", minop=11, weight=8, tol=(1e-3, 1e-4))
def g(d, opset):
    return resize_gen(d, d.weighted([(4, "ResizeBilinear"), (4, "ResizeNearestNeighbor"), (1, "ResizeArea")]))


g.builds(resize_build)


@cell("ResizeBicubic", "C04 image", minop=11, weight=4, tol=(5e-3, 2e-3))     # TensorFlow takes the weights from a table
def g(d, opset):
    return resize_gen(d, "ResizeBicubic")


g.builds(resize_build)


@cell("ImageResize", "C04 image", minop=11, weight=4, tol=(1e-3, 1e-4))
def g(d, opset):
    x = img(d, n=d.int(1, 2))
    if d.prob(30):
        x["shape"] = x["shape"][1:]
        x.pop("dyn", None)
    cst = "always" if d.prob(75) else "never"
    m = d.choice(["bilinear", "nearest"])
    return {"ins": [x, val([d.int(1, 10), d.int(1, 10)], I32, const=cst)], "m": m, "keep": False}


@g.builds
def _(p, x, size):
    return tf.image.resize(x, size, method=p["m"])


@cell("ResizeWithPad", "C04 image", minop=11, weight=1, tol=(1e-3, 1e-4))
def g(d, opset):
    return {"ins": [img(d, const="never", dyn="never")], "h": d.int(1, 9), "w": d.int(1, 9), "m": d.choice(["bilinear", "nearest"]), "crop": d.bool()}


@g.builds
def _(p, x):
    if p["crop"]:
        return tf.image.resize_with_crop_or_pad(x, p["h"], p["w"])
    return tf.image.resize_with_pad(x, p["h"], p["w"], method=p["m"])


@cell("KerasUpSampling", "C04 image", minop=11, weight=2, tol=(1e-3, 1e-4))
def g(d, opset):
    return {"ins": [img(d, const="never")], "k": [d.int(1, 3), d.int(1, 3)], "m": d.choice(["nearest", "bilinear"])}


@g.builds
def _(p, x):
    import tf_keras
    return tf_keras.backend.resize_images(x, p["k"][0], p["k"][1], "channels_last", interpolation=p["m"])


# ------------------------------------------------------------------ cropping

@cell("CropAndResize", "C04 image", minop=11, weight=6, tol=(1e-3, 1e-4))
def g(d, opset):
    x = img(d, hi=8, n=d.int(1, 3))
    if d.prob(20):
        x["dtype"] = d.choice([U8, I32, F16])
        if not is_float(x["dtype"]):
            x["kind"] = "int"
    nb = d.int(1, 4)
    style = d.int(0, 3)
    boxes = []
    for _ in range(nb):
        if style == 0:
            boxes.append([0.0, 0.0, 1.0, 1.0])
        elif style == 1:
            boxes.append([d.int(0, 4) / 8, d.int(0, 4) / 8, d.int(5, 8) / 8, d.int(5, 8) / 8])
        elif style == 2:
            boxes.append([d.float(0, 0.5), d.float(0, 0.5), d.float(0.5, 1), d.float(0.5, 1)])
        else:
            boxes.append([d.float(-0.5, 1.5) for _ in range(4)])    # outside, flipped
    size = [d.int(1, 6), d.int(1, 6)]
    method = d.choice(["bilinear", "nearest"])
    for a, k in ((0, 1), (1, 2)):
        decide_boxes(boxes, size[a], x["shape"][k], a, method)
        if size[a] == x["shape"][k] and any(b[a] != 0.0 or b[a + 2] != 1.0 for b in boxes):
            size[a] += 1        # onnxruntime takes "no resizing" for "no cropping"
    p = {"ins": [x, val(boxes, F32, d=d), val([d.int(0, x["shape"][0] - 1) for _ in range(nb)], I32, d=d),
                 val(size, I32, const="always" if d.prob(70) else "never")],
         "method": method, "ext": d.choice([0.0, 0.0, -1.5, 10.0])}
    for a, k in ((0, 1), (1, 2)):
        decide_boxes(boxes, size[a], x["shape"][k], a, method)
    p["ins"][1]["value"] = boxes
    return p


def coords(y1, y2, n, size):
    if n > 1:
        return y1 * (size - 1) + np.arange(n) * (y2 - y1) * (size - 1) / (n - 1)
    return np.array([0.5 * (y1 + y2) * (size - 1)])


def decided(y1, y2, n, size, method):
    """No sample lands within rounding error of the image's border or (nearest) of the middle of two pixels,
    unless its coordinate is computed exactly."""
    c = coords(y1, y2, n, size)
    parts = np.array([y1, y2, (y2 - y1) * (size - 1) / (n - 1) if n > 1 else 0.0])
    if (parts * 256 == np.round(parts * 256)).all():
        return True
    marks = [0.0, size - 1.0]
    if method == "nearest":
        marks += [i + 0.5 for i in range(-1, size)]
    return all(np.abs(c - m).min() > 1e-4 for m in marks)


def decide_boxes(boxes, n, size, a, method):
    for b in boxes:
        for y1, y2 in [(b[a], b[a + 2]), (0.0, 1.0), (0.0, 0.5), (0.11, 0.83), (0.07, 0.71), (0.23, 0.57), (0.29, 0.37)]:
            if decided(y1, y2, n, size, method):
                b[a], b[a + 2] = y1, y2
                break
        else:
            raise Reject("no such box")


@g.builds
def _(p, x, b, i, s):
    return tf.raw_ops.CropAndResize(image=x, boxes=b, box_ind=i, crop_size=s, method=p["method"], extrapolation_value=p["ext"])


@cell("CropPadBox", "C04 image", minop=11, weight=1)
def g(d, opset):
    x = img(d, const="never")
    h, w = x["shape"][1:3]
    a, b = d.int(0, h - 1), d.int(0, w - 1)
    what = d.choice(["crop", "pad", "central"])
    x.pop("dyn", None)
    x["dynok"] = False
    return {"ins": [x], "what": what, "a": a, "b": b, "h": d.int(1, h - a), "w": d.int(1, w - b), "ph": h + a + d.int(0, 3),
            "pw": w + b + d.int(0, 2), "f": d.choice([0.5, 0.7, 1.0])}


@g.builds
def _(p, x):
    if p["what"] == "crop":
        return tf.image.crop_to_bounding_box(x, p["a"], p["b"], p["h"], p["w"])
    if p["what"] == "pad":
        return tf.image.pad_to_bounding_box(x, p["a"], p["b"], p["ph"], p["pw"])
    return tf.image.central_crop(x, p["f"])


@cell("ExtractPatches", "C04 image", minop=11, weight=4)
def g(d, opset):
    k = [d.int(1, 3), d.int(1, 3)]
    rate = [d.int(1, 2), d.int(1, 2)]
    st = [d.int(1, 3), d.int(1, 3)]
    pad = d.choice(["SAME", "VALID"])
    sp = [d.int((a - 1) * r + 1, 8) for a, r in zip(k, rate)]
    return {"ins": [t(d, [d.int(1, 3)] + sp + [d.int(1, 3)], F32, dyn="never")], "k": k, "rate": rate, "st": st, "pad": pad}


@g.builds
def _(p, x):
    return tf.image.extract_patches(x, [1] + p["k"] + [1], [1] + p["st"] + [1], [1] + p["rate"] + [1], p["pad"])


# ------------------------------------------------------------------ suppression of overlapping boxes

def boxes_of(d, n, flip=True):
    grid = d.prob(30)
    out = []
    for _ in range(n):
        if grid:
            y, x = d.int(0, 6), d.int(0, 6)
            b = [y, x, y + d.int(0, 4), x + d.int(0, 4)]
            b = [float(v) for v in b]
        else:
            y, x = d.float(-1, 5), d.float(-1, 5)
            b = [y, x, round(y + d.float(0.1, 4), 4), round(x + d.float(0.1, 4), 4)]
        if flip and d.prob(15):
            b = [b[2], b[3], b[0], b[1]]
        elif flip and d.prob(10):
            b = [b[0], b[3], b[2], b[1]]
        out.append(b)
    return out


def iou_all(bs):
    out = []
    for i in range(len(bs)):
        for j in range(i):
            a, b = bs[i], bs[j]
            a = [min(a[0], a[2]), min(a[1], a[3]), max(a[0], a[2]), max(a[1], a[3])]
            b = [min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]), max(b[1], b[3])]
            h, w = max(0, min(a[2], b[2]) - max(a[0], b[0])), max(0, min(a[3], b[3]) - max(a[1], b[1]))
            u = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - h * w
            out.append(h * w / u if u > 0 else 0.0)
    return out


def threshold(d, bs):
    """An overlap threshold which no pair of boxes meets only up to rounding error."""
    th = d.choice([0.5, 0.3, 0.7, 0.0, 1.0, 0.1])
    for v in iou_all(bs):
        if abs(v - th) < 1e-5 and v not in (0.0,) and th not in (0.5, 1.0):
            return 0.45123
    return th


def scores_of(d, n, ties=True):
    if ties and d.prob(20):
        return [d.choice([0.25, 0.5, 0.75, -0.5]) for _ in range(n)]
    p = d.perm(n)
    return [round(0.9 - 0.07 * i + d.int(0, 9) * 0.001, 4) for i in p]


@cell("NMS", "C04 image", minop=11, weight=8)
def g(d, opset):
    n = d.int(1, 8)
    bs = boxes_of(d, n)
    ver = d.weighted([(20, "V2"), (20, "V3"), (30, "V4"), (30, "V5"), (10, "py"), (20, "scores"), (1, "padded")])
    mx = d.int(0, 9) if ver not in ("padded",) else d.int(1, 9)
    p = {"ins": [val(bs, F32, const="never", d=d), val(scores_of(d, n), F32, const="never", d=d),
                 val(mx, I32, const="always" if d.prob(70) else "never"), val(threshold(d, bs), F32, d=d),
                 val(d.choice([-1e9, 0.4, 0.5, 0.0]), F32, d=d)], "ver": ver, "pad": d.bool()}
    # both operands have as many boxes
    if p["ins"][0].get("dyn") or p["ins"][1].get("dyn"):
        p["ins"][0]["dyn"], p["ins"][1]["dyn"] = [True, False], [True]
    return p


@g.builds
def _(p, b, s, m, iou, st):
    v = p["ver"]
    R = tf.raw_ops
    if v == "V2":
        return R.NonMaxSuppressionV2(boxes=b, scores=s, max_output_size=m, iou_threshold=iou)
    if v == "V3":
        return R.NonMaxSuppressionV3(boxes=b, scores=s, max_output_size=m, iou_threshold=iou, score_threshold=st)
    if v == "V4":
        r = R.NonMaxSuppressionV4(boxes=b, scores=s, max_output_size=m, iou_threshold=iou, score_threshold=st,
                                  pad_to_max_output_size=p["pad"])
        return [r.selected_indices, r.valid_outputs]
    if v == "V5":
        r = R.NonMaxSuppressionV5(boxes=b, scores=s, max_output_size=m, iou_threshold=iou, score_threshold=st,
                                  soft_nms_sigma=0.0, pad_to_max_output_size=p["pad"])
        return [r.selected_indices, r.selected_scores, r.valid_outputs]
    if v == "py":
        return tf.image.non_max_suppression(b, s, m, iou, st)
    if v == "scores":
        return tf.image.non_max_suppression_with_scores(b, s, m, iou, st)
    return tf.image.non_max_suppression_padded(b, s, m, iou, st, pad_to_max_output_size=p["pad"])


@cell("CombinedNMS", "C04 image", minop=12, weight=5)
def g(d, opset):
    n, nb, nc = d.int(1, 2), d.int(1, 6), d.int(1, 3)
    bs = [boxes_of(d, nb) for _ in range(n)]
    if d.prob(60):
        bs = [[[v / 6 for v in b] for b in q] for q in bs]
    p = d.perm(n * nb * nc)
    sc = [round(0.95 - 0.9 * i / (n * nb * nc), 4) for i in p]
    th = 0.45123 if d.prob(50) else d.choice([0.3, 0.7])
    for q in bs:
        if any(abs(v - th) < 1e-5 for v in iou_all(q)):
            th = 0.45123
    cst = "always" if d.prob(80) else "never"
    per, tot = d.int(1, 5), d.int(1, 9)
    return {"ins": [val(np.array(bs)[:, :, None, :].tolist(), F32, const="never"),
                    val(np.array(sc).reshape(n, nb, nc).tolist(), F32, const="never"),
                    val(per, I32, const=cst), val(tot, I32, const=cst),
                    val(th, F32, d=d), val(d.choice([-1e9, 0.5, 0.0]), F32, d=d)],
            "ppc": d.bool(), "clip": d.bool()}


@g.builds
def _(p, b, s, per, tot, iou, st):
    r = tf.raw_ops.CombinedNonMaxSuppression(boxes=b, scores=s, max_output_size_per_class=per, max_total_size=tot,
                                             iou_threshold=iou, score_threshold=st, pad_per_class=p["ppc"], clip_boxes=p["clip"])
    return [r.nmsed_boxes, r.nmsed_scores, r.nmsed_classes, r.valid_detections]


# ------------------------------------------------------------------ colour

def rgb(d, dtype=F32, **kw):
    sh = d.shape(0, 3, dim=4) + [3]
    if len(sh) < 3:
        sh = [d.int(1, 4)] * (3 - len(sh)) + sh
    return t(d, sh, dtype, d.choice(["unit01", "grey"]), **kw)


def factor(d, v):
    return val(v, F32, const="always" if d.prob(75) else "never")


@cell("AdjustContrast", "C04 image", weight=3, minop=11, tol=(1e-3, 1e-4))
def g(d, opset):
    x = t(d, d.shape(0, 1, dim=3) + [d.int(1, 5), d.int(1, 5), d.int(1, 4)], F32)
    return {"ins": [x, factor(d, d.choice([0.0, 0.5, 1.0, 2.5, -1.0]))]}


@g.builds
def _(p, x, f):
    return tf.raw_ops.AdjustContrastv2(images=x, contrast_factor=f)


@cell("AdjustSaturation", "C04 image", weight=3, minop=11, tol=(1e-3, 1e-4))
def g(d, opset):
    return {"ins": [rgb(d), factor(d, d.choice([0.0, 0.5, 1.0, 1.3, 3.0, 10.0]))]}


@g.builds
def _(p, x, f):
    return tf.raw_ops.AdjustSaturation(images=x, scale=f)


@cell("AdjustHue", "C04 image", weight=3, minop=11, tol=(1e-3, 2e-4))
def g(d, opset):
    return {"ins": [rgb(d), factor(d, d.choice([0.0, 0.1, -0.25, 0.5, 1.0, -1.0, 0.77]))]}


@g.builds
def _(p, x, f):
    return tf.raw_ops.AdjustHue(images=x, delta=f)


@cell("ColourMisc", "C04 image", weight=4, minop=13, tol=(1e-3, 2e-4))
def g(d, opset):
    what = d.choice(["rgb2grey", "grey2rgb", "std", "bright", "gamma", "yuv", "yiq", "fromyuv", "invert"])
    x = t(d, d.shape(0, 1, dim=3) + [d.int(1, 5), d.int(1, 5), 1 if what == "grey2rgb" else 3], F32, "pos" if what == "gamma" else "unit01")
    if what == "std" and np.prod(x["shape"][-3:]) < 6:
        x["shape"][-3:] = [3, 2, 3]
        x.pop("dyn", None)
    return {"ins": [x], "what": what, "f": d.float(0.2, 2)}


@g.builds
def _(p, x):
    f = p["f"]
    return {"rgb2grey": lambda: tf.image.rgb_to_grayscale(x), "grey2rgb": lambda: tf.image.grayscale_to_rgb(x),
            "std": lambda: tf.image.per_image_standardization(x), "bright": lambda: tf.image.adjust_brightness(x, f),
            "gamma": lambda: tf.image.adjust_gamma(x, f, 1.5), "yuv": lambda: tf.image.rgb_to_yuv(x),
            "yiq": lambda: tf.image.rgb_to_yiq(x), "fromyuv": lambda: tf.image.yuv_to_rgb(x),
            "invert": lambda: 1.0 - tf.image.convert_image_dtype(x, tf.float32)}[p["what"]]()


@cell("ImageFlips", "C04 image", weight=2, minop=11)
def g(d, opset):
    r3 = d.bool()
    x = t(d, ([] if r3 else [d.int(1, 3)]) + [d.int(1, 5), d.int(1, 5), d.int(1, 3)], d.choice([F32, I32]), dyn="never")
    return {"ins": [x], "what": d.choice(["lr", "ud", "tr", "rot", "grad", "sobel", "tv"]), "k": d.int(0, 3)}


@g.builds
def _(p, x):
    w = p["what"]
    if w == "lr":
        return tf.image.flip_left_right(x)
    if w == "ud":
        return tf.image.flip_up_down(x)
    if w == "tr":
        return tf.image.transpose(x)
    if w == "rot":
        return tf.image.rot90(x, p["k"])
    if len(x.shape) == 3 or x.dtype != tf.float32 or x.shape[1] < 2 or x.shape[2] < 2:
        return tf.image.flip_left_right(x)
    if w == "grad":
        return list(tf.image.image_gradients(x))
    if w == "sobel":
        return tf.image.sobel_edges(x)
    return tf.image.total_variation(x)


@cell("ConvertImageDtype", "C04 image", weight=1, minop=11)
def g(d, opset):
    a, b = d.choice([(U8, F32), (F32, U8), (U8, F16), (F32, F64)])
    return {"ins": [t(d, d.shape(1, 3), a, "int" if a == U8 else "unit01")], "to": b, "sat": d.bool()}


@g.builds
def _(p, x):
    return tf.image.convert_image_dtype(x, tf.as_dtype(p["to"]), saturate=p["sat"])
