"""FlexBuffer decoding: generated values through two encoders (a plain one written from the format, and the flatbuffers package) and mutated buffers."""
import math
import struct

from core import Info, Reject, Suite, Violation

NULL, INT, UINT, FLOAT, KEY, STRING, IND_INT, IND_UINT, IND_FLOAT, MAP, VEC = range(11)
TV = {"int": 11, "uint": 12, "float": 13, "key": 14, "bool": 36}
BLOB, BOOL = 25, 26


# ------------------------------------------------------------------ generating
def gen_int(d, signed):
    bits = d.choice([7, 8, 15, 16, 31, 32, 63, 64])
    hi = 2 ** bits
    v = d.choice([0, 1, hi - 1, hi - 1, hi // 2, hi // 2 + 1, d.int(0, 200)])
    if signed:
        v = min(v, 2 ** 63 - 1)
        v = d.choice([v, -v, -v - 1])
        return max(v, -2 ** 63)
    return min(v, 2 ** 64 - 1)


def gen_float(d):
    return d.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, 3.4028234663852886e38, 0.1, float("inf"), float("-inf"), float("nan"), d.int(-1000, 1000) / 7, d.int(-1000, 1000) / 8])


def gen_text(d, key=False):
    n = d.choice([0, 1, 2, 3, 5, 8, 13, 40]) if not d.prob(4) else d.choice([254, 255, 256, 257, 300, 65535, 65536, 66000])
    if key:
        n = min(n, 40)
    alpha = ["a", "b", "key", "_", "\u00e9", "\u4e2d", "\U0001f600", " ", "\n"] + ([] if key else ["\0", "\0"])
    if n > 40:
        return {"rep": d.choice(["a", "\u00e9", "\0"]), "n": n}
    return "".join(d.choice(alpha) for _ in range(n))


def text(v):
    return v["rep"] * v["n"] if isinstance(v, dict) else v


def gen_value(d, depth):
    k = d.weighted([(5, "int"), (3, "uint"), (3, "float"), (2, "bool"), (1, "null"), (4, "string"), (1, "key"), (2, "blob"), (1, "iint"), (1, "iuint"), (1, "ifloat")]
                   + ([(6, "vec"), (7, "map"), (4, "typed"), (3, "fixed")] if depth > 0 else []))
    if k in ("int", "iint"):
        return [k, gen_int(d, True)]
    if k in ("uint", "iuint"):
        return [k, gen_int(d, False)]
    if k in ("float", "ifloat"):
        return [k, gen_float(d)]
    if k == "bool":
        return [k, d.bool()]
    if k == "null":
        return [k, None]
    if k == "string":
        return [k, gen_text(d)]
    if k == "key":
        return [k, gen_text(d, True)]
    if k == "blob":
        n = d.choice([0, 1, 2, 4, 7, 16]) if not d.prob(5) else d.choice([255, 256, 70000])
        return [k, [n, d.seed()]]
    n = d.choice([0, 1, 2, 3, 4, 5]) if not d.prob(3) else d.choice([20, 255, 256, 300])
    if k == "vec":
        return [k, [gen_value(d, depth - 1) if n < 10 or i < 3 else ["int", i] for i in range(n)]]
    if k == "map":
        keys, out = set(), []
        for i in range(n):
            key = gen_text(d, True) if n < 10 else "k%d" % i
            if key not in keys:
                keys.add(key)
                out.append([key, gen_value(d, depth - 1) if n < 10 or i < 3 else ["int", i]])
        return [k, out]
    if k == "typed":
        e = d.choice(["int", "uint", "float", "bool", "key"])
    else:
        e, n = d.choice(["int", "uint", "float"]), d.choice([2, 3, 4])
    one = {"int": lambda: gen_int(d, True), "uint": lambda: gen_int(d, False), "float": lambda: gen_float(d), "bool": d.bool, "key": lambda: gen_text(d, True)}[e]
    vals = [one() if i < 6 else (i % 2 == 0 if e == "bool" else "k%d" % i if e == "key" else i) for i in range(n)]
    return [k, [e, vals]]


def gen(d):
    return {"value": gen_value(d, d.int(1, 4)), "min_width": d.choice([0, 0, 0, 1, 2, 3]), "share": d.bool(), "share_keys": d.bool(), "order": d.bool(),
            "encoder": d.choice(["plain", "plain", "package"]), "decode": not d.prob(25), "wide": d.int(0, 7), "pad": d.int(0, 3)}


# ------------------------------------------------------------------ what it should decode to
def expected(v, decode):
    k, x = v
    st = (lambda s: s) if decode else (lambda s: s.encode())
    if k in ("string", "key"):
        return st(text(x))
    if k == "blob":
        return blob(x)
    if k == "vec":
        return [expected(e, decode) for e in x]
    if k == "map":
        return {st(text(a)): expected(b, decode) for a, b in x}
    if k in ("typed", "fixed"):
        return [expected(["key" if x[0] == "key" else x[0], e], decode) for e in x[1]]
    if k in ("float", "ifloat"):
        return float(x)
    return x


def blob(x):
    n, seed = x
    return bytes((seed * 7 + i * 13) % 256 for i in range(n))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


# ------------------------------------------------------------------ the plain encoder
def f32(x):
    try:
        return math.isnan(x) or struct.unpack("<f", struct.pack("<f", x))[0] == x
    except OverflowError:
        return False


def wi(x):
    return next(w for w in range(4) if -2 ** (8 * 2 ** w - 1) <= x < 2 ** (8 * 2 ** w - 1))


def wu(x):
    return next(w for w in range(4) if x < 2 ** (8 * 2 ** w))


class Enc:
    def __init__(self, spec):
        self.b, self.spec, self.pool, self.n = bytearray(), spec, {}, 0

    def extra(self):
        """some values are stored wider than they need to be"""
        self.n += 1
        w = self.spec["wide"]
        return 1 if w and self.n % 7 < w and self.n % 2 else 0

    def align(self, w):
        self.b += bytes(-len(self.b) % (1 << w))

    def num(self, kind, x, w):
        if kind == "float":
            self.b += struct.pack("<f" if w == 2 else "<d", x)
        else:
            self.b += struct.pack("<" + ("bhiq" if kind == "int" else "BHIQ")[w], int(x))

    # returns ("inline", type, kind, value, width) or ("at", type, position, own width)
    def put(self, v):
        k, x = v
        if k == "null":
            return ("inline", NULL, "uint", 0, 0)
        if k == "bool":
            return ("inline", BOOL, "uint", int(x), 0)
        if k == "int":
            return ("inline", INT, "int", x, wi(x))
        if k == "uint":
            return ("inline", UINT, "uint", x, wu(x))
        if k == "float":
            return ("inline", FLOAT, "float", x, 2 if f32(x) else 3)
        if k in ("iint", "iuint", "ifloat"):
            t = {"iint": IND_INT, "iuint": IND_UINT, "ifloat": IND_FLOAT}[k]
            w = min(3, {"iint": lambda: wi(x), "iuint": lambda: wu(x), "ifloat": lambda: 2 if f32(x) else 3}[k]() + self.extra())
            self.align(w)
            p = len(self.b)
            self.num(k[1:], x, w)
            return ("at", t, p, w)
        if k == "key":
            return ("at", KEY, self.key(text(x)), 0)
        if k in ("string", "blob"):
            data = text(x).encode() if k == "string" else blob(x)
            if self.spec["share"] and (k, data) in self.pool:
                return self.pool[(k, data)]
            w = min(3, wu(len(data)) + self.extra())
            self.align(w)
            self.num("uint", len(data), w)
            p = len(self.b)
            self.b += data + (b"\0" if k == "string" else b"")
            r = ("at", STRING if k == "string" else BLOB, p, w)
            self.pool[(k, data)] = r
            return r
        if k == "vec":
            items = [self.put(e) for e in x]
            p, w = self.vector(items, types=True)
            return ("at", VEC, p, w)
        if k == "map":
            pairs = [(text(a), b) for a, b in x]
            put = sorted(pairs, key=lambda q: q[0].encode()) if not self.spec["order"] else pairs
            vals = {a: self.put(b) for a, b in put}
            names = sorted(vals, key=lambda a: a.encode())
            keys = [("at", KEY, self.key(a), 0) for a in names]
            kp = ("keys", tuple(names))
            if self.spec["share_keys"] and kp in self.pool:
                kpos, kw = self.pool[kp]
            else:
                kpos, kw = self.vector(keys, types=False)
                self.pool[kp] = kpos, kw
            p, w = self.vector([vals[a] for a in names], types=True, keys=(kpos, kw))
            return ("at", MAP, p, w)
        if k == "typed":
            e, xs = x
            p, w = self.vector([self.put([e, q]) for q in xs], types=False)
            return ("at", TV[e], p, w)
        if k == "fixed":
            e, xs = x
            p, w = self.vector([self.put([e, q]) for q in xs], types=False, size=False)
            return ("at", 16 + 3 * (len(xs) - 2) + {"int": 0, "uint": 1, "float": 2}[e], p, w)
        raise AssertionError(k)

    def key(self, s):
        if (self.spec["share"] or self.spec["share_keys"]) and ("k", s) in self.pool:
            return self.pool[("k", s)]
        p = len(self.b)
        self.b += s.encode() + b"\0"
        self.pool[("k", s)] = p
        return p

    def vector(self, items, types, keys=None, size=True):
        self.b += bytes(self.spec["pad"])
        n = len(items)
        lo = max([self.spec["min_width"]] + [i[4] for i in items if i[0] == "inline"] + ([wu(n)] if size else []) + ([wu(keys[1])] if keys else []))
        if any(i[0] == "inline" and i[2] == "float" for i in items):
            lo = max(lo, 2)
        lo = min(3, lo + self.extra())
        for w in range(lo, 4):
            start = len(self.b) + -len(self.b) % (1 << w)
            head = (2 if keys else 0) + (1 if size else 0)
            first = start + (head << w)
            ok = not keys or wu(start - keys[0]) <= w
            ok = ok and all(i[0] == "inline" or wu(first + (j << w) - i[2]) <= w for j, i in enumerate(items))
            if ok:
                break
        self.align(w)
        if keys:
            self.num("uint", len(self.b) - keys[0], w)
            self.num("uint", 1 << keys[1], w)
        if size:
            self.num("uint", n, w)
        p = len(self.b)
        for i in items:
            self.item(i, w)
        if types:
            for i in items:
                self.b.append(i[1] << 2 | (w if i[0] == "inline" else i[3]))
        return p, w

    def item(self, i, w):
        if i[0] == "inline":
            self.num(i[2], i[3], w)
        else:
            self.num("uint", len(self.b) - i[2], w)

    def root(self, v):
        i = self.put(v)
        w = i[4] if i[0] == "inline" else 0
        if i[0] == "at":
            while True:
                p = len(self.b) + -len(self.b) % (1 << w)
                if wu(p - i[2]) <= w:
                    break
                w += 1
        self.align(w)
        self.item(i, w)
        self.b.append(i[1] << 2 | (w if i[0] == "inline" else i[3]))
        self.b.append(1 << w)
        return bytes(self.b)


def encode(spec):
    if spec["encoder"] == "plain":
        return Enc(spec).root(spec["value"])
    from flatbuffers import flexbuffers as fx
    b = fx.Builder(share_strings=spec["share"], share_keys=spec["share_keys"], force_min_bit_width=fx.BitWidth(spec["min_width"]))

    def add(v, key=None):
        k, x = v
        # containers take their key through the builder's stack
        if key is not None:
            b.Key(key)
        if k == "null":
            b.Null()
        elif k == "bool":
            b.Bool(x)
        elif k == "int":
            b.Int(x)
        elif k == "uint":
            b.UInt(x)
        elif k == "float":
            b.Float(x, 4 if f32(x) and not math.isnan(x) else 8)
        elif k == "iint":
            b.IndirectInt(x)
        elif k == "iuint":
            b.IndirectUInt(x)
        elif k == "ifloat":
            b.IndirectFloat(x, 4 if f32(x) and not math.isnan(x) else 8)
        elif k == "string":
            b.String(text(x))
        elif k == "key":
            b.Key(text(x))
        elif k == "blob":
            b.Blob(blob(x))
        elif k == "vec":
            with b.Vector():
                for e in x:
                    add(e)
        elif k == "map":
            with b.Map():
                for a, e in x:
                    add(e, text(a))
        elif k == "typed":
            with b.TypedVector():
                for e in x[1]:
                    add([x[0], e])
        elif k == "fixed":
            add(["vec", [[x[0], e] for e in x[1]]])
        else:
            raise AssertionError(k)
    add(spec["value"])
    return bytes(b.Finish())


def kinds(v, out):
    out.add(v[0])
    if v[0] == "vec":
        for e in v[1]:
            kinds(e, out)
    elif v[0] == "map":
        for _, e in v[1]:
            kinds(e, out)
    elif v[0] in ("typed", "fixed"):
        out.add(v[0] + " " + v[1][0])
    return out


def untypable(v):
    """what the package's encoder doesn't take: empty typed vectors, keys in them"""
    k, x = v
    if k == "typed":
        return not x[1] or x[0] in ("key", "bool")
    if k == "vec":
        return any(untypable(e) for e in x)
    if k == "map":
        return any(untypable(e) for _, e in x)
    return False


def run(spec):
    from tf2onnx.flexbuffers import read_flexbuffer
    if spec["encoder"] == "package" and untypable(spec["value"]):
        spec = dict(spec, encoder="plain")
    try:
        data = encode(spec)
    except Exception as e:  # noqa: BLE001
        if spec["encoder"] == "package":
            raise Reject("the package does not encode it: %s %s" % (type(e).__name__, str(e)[:100]))
        raise
    want = expected(spec["value"], spec["decode"])
    from flatbuffers import flexbuffers as fx
    try:
        ref = fx.GetRoot(bytearray(data)).Value
    except Exception as e:  # noqa: BLE001
        ref = e
    if spec["decode"] and not same(plain(ref), want):
        ref_ok = False
    else:
        ref_ok = True
    before = bytes(data)
    try:
        got = read_flexbuffer(data, decode_strings=spec["decode"])
    except Exception as e:  # noqa: BLE001
        got = e
    if data != before:
        raise Violation("the buffer was modified")
    if not same(got, want):
        if spec["encoder"] == "package" and not ref_ok:
            raise Reject("the package does not encode it")
        raise Violation("%r decodes to %s, expected %s (%d bytes: %s)" % (kinds(spec["value"], set()), repr(got)[:300], repr(want)[:300], len(data), data[-60:].hex()))
    ks = kinds(spec["value"], set())
    return Info(bool(ks & {"vec", "map", "typed", "fixed"}), sorted(ks) + [spec["encoder"], "reference reader agrees" if ref_ok else "reference reader differs"])


def plain(x):
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, list):
        return [plain(e) for e in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ damaged data
def gen_bad(d):
    s = gen(d)
    s["encoder"] = "plain"
    s["damage"] = [[d.choice(["flip", "set", "cut", "insert", "head", "tail"]), d.int(0, 9999), d.int(0, 255)] for _ in range(d.int(1, 4))]
    return s


def run_bad(spec):
    from tf2onnx.flexbuffers import read_flexbuffer
    data = bytearray(encode(spec))
    if len(data) > 3000:
        raise Reject("large")
    for k, p, v in spec["damage"]:
        if not data:
            break
        p %= len(data)
        if k == "flip":
            data[p] ^= 1 << (v % 8)
        elif k == "set":
            data[p] = v
        elif k == "cut":
            del data[p:p + 1 + v % 4]
        elif k == "insert":
            data.insert(p, v)
        elif k == "head":
            del data[:p % 8]
        else:
            data[-1 - p % min(6, len(data))] = v
    try:
        got = read_flexbuffer(bytes(data), decode_strings=spec["decode"])
    except Exception as e:  # noqa: BLE001
        return Info(True, ["rejected: " + type(e).__name__])
    check_types(got, bytes(data))
    return Info(True, ["decoded"])


def check_types(x, data):
    if isinstance(x, dict):
        for k, v in x.items():
            if not isinstance(k, (str, bytes)):
                raise Violation("a damaged buffer decodes to a map with key %r" % (k,))
            check_types(v, data)
    elif isinstance(x, list):
        for v in x:
            check_types(v, data)
    elif not (x is None or isinstance(x, (bool, int, float, str, bytes))):
        raise Violation("a damaged buffer decodes to a %s" % type(x).__name__)
    elif isinstance(x, (str, bytes)) and len(x) > len(data):
        raise Violation("a damaged buffer of %d bytes decodes to text of %d" % (len(data), len(x)))


SUITES = [
    Suite("well-formed", gen, run, quick=24000),
    Suite("damaged", gen_bad, run_bad, quick=16000),
]
