"""Arrays of every element type and memory layout, made the same way in rumpy and (as the model) in numpy."""
import random

DT = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64",
      "complex64", "complex128", "datetime64[ns]", "datetime64[s]", "datetime64[D]", "datetime64[us]", "datetime64[ms]"]

DT_STORE = DT + ["timedelta64[s]", "timedelta64[ns]", "datetime64[Y]", "datetime64[h]", "U3", "S4", "U1"]


def prod(s):
    t = 1
    for d in s:
        t *= d
    return t


def data(np, spec):
    """The model's base array: element values from spec['seed'], including extreme ones."""
    r = random.Random(spec["seed"])
    dt, shape = spec["dtype"], tuple(spec["shape"])
    n = prod(shape)
    d = np.dtype(dt)
    fill = spec.get("fill", "ramp")
    if d.kind in "US":
        al = "abz 019\u00e9\U0001f600" if d.kind == "U" else "abz 019~"
        k = d.itemsize // (4 if d.kind == "U" else 1)
        return np.array(["".join(r.choice(al) for _ in range(r.randrange(0, k + 1))).strip() for _ in range(n)], dtype=dt).reshape(shape)
    if fill == "ramp" or n > 5000:
        a = (np.arange(n) % 251).astype("int64")
        a = a.astype("bool") if dt == "bool" else a.astype(d)
        if d.kind == "c":
            a = a + (a.real.astype(d) * 1j + 0.5j).astype(d)
        return a.astype(d).reshape(shape)
    if d.kind == "b":
        a = np.array([r.random() < 0.5 for _ in range(n)], dtype=bool)
    elif d.kind in "iu":
        ii = np.iinfo(d)
        ext = [ii.min, ii.max, 0, 1, ii.max - 1, ii.max // 2 + 1]
        a = np.array([r.choice(ext) if r.random() < 0.3 else r.randint(ii.min, ii.max) for _ in range(n)], dtype=d)
    elif d.kind in "Mm":
        a = np.array([r.choice([0, 1, -1, 2 ** 53 + 1, -2 ** 62, 2 ** 62 + 3]) if r.random() < 0.4 else r.randint(-2 ** 62, 2 ** 62)
                      for _ in range(n)], dtype="int64").view(d)
    else:
        def f():
            k = r.random()
            if k < 0.08:
                return float("nan")
            if k < 0.14:
                return float("inf") * r.choice([1, -1])
            if k < 0.2:
                return -0.0
            if k < 0.3:
                return r.choice([5e-324, 1e-310, 1e-40, 6e-8, 1.7976931348623157e308, 65504.0, 3.4e38, 0.1])
            return r.uniform(-1, 1) * 10 ** r.randint(-8, 8)
        with np.errstate(all="ignore"):
            if d.kind == "c":
                a = np.array([complex(f(), f()) for _ in range(n)], dtype="complex128").astype(d)
            else:
                a = np.array([f() for _ in range(n)], dtype="float64").astype(d)
    return a.reshape(shape)


def gen_shape(rng, maxn=200, nd=None):
    nd = rng.choice([1, 1, 2, 2, 2, 3, 3, 4]) if nd is None else nd
    while True:
        s = [rng.choice([1, 2, 3, 3, 4, 5, 7]) if rng.random() < 0.93 else rng.choice([0, 1, 16, 33]) for _ in range(nd)]
        if prod(s) <= maxn:
            return s


def gen_slice(rng, n, step_neg=True):
    st = rng.choice([None, None, None, 1, 2, 3] + ([-1, -1, -2, -3] if step_neg else []))
    def b():
        return None if rng.random() < 0.45 else rng.randrange(-n - 2, n + 3)
    return ["s", b(), b(), st]


def gen_index(rng, shape):
    """A basic index for an array of this shape: list of items, ints, slices, newaxis, ellipsis."""
    items = []
    nd = len(shape)
    k = rng.randrange(1, nd + 1) if nd else 0
    for ax in range(k):
        n = shape[ax]
        if rng.random() < 0.3 and n > 0:
            items.append(["i", rng.randrange(-n, n)])
        else:
            items.append(gen_slice(rng, n))
    if rng.random() < 0.1:
        items.insert(rng.randrange(len(items) + 1), ["n"])
    if k < nd and rng.random() < 0.15:
        items.append(["e"])
    return items


def mk_index(items, single=True):
    out = []
    for it in items:
        if it[0] == "i":
            out.append(it[1])
        elif it[0] == "s":
            out.append(slice(it[1], it[2], it[3]))
        elif it[0] == "n":
            out.append(None)
        else:
            out.append(Ellipsis)
    return out[0] if len(out) == 1 and single else tuple(out)


def gen_chain(rng, np, shape, maxlen=3, zero_ok=True):
    """View operations; the numpy shape is tracked so that every step is valid."""
    a = np.empty(tuple(shape), dtype="u1")
    out = []
    for _ in range(rng.randrange(0, maxlen + 1)):
        nd = a.ndim
        k = rng.choice(["idx", "idx", "idx", "T", "swap", "perm", "expand", "squeeze", "flip", "bcast", "move", "slice0"])
        if k in ("idx", "slice0"):
            if nd == 0:
                continue
            op = ["idx", gen_index(rng, a.shape) if k == "idx" else [gen_slice(rng, a.shape[0])]]
            b = a[mk_index(op[1])]
            if not isinstance(b, np.ndarray) or b.ndim == 0:
                continue
        elif k == "T":
            op = ["T"]
            b = a.T
        elif k == "swap":
            if nd < 2:
                continue
            op = ["swap", rng.randrange(nd), rng.randrange(nd)]
            b = np.swapaxes(a, op[1], op[2])
        elif k == "perm":
            if nd < 2:
                continue
            p = list(range(nd))
            rng.shuffle(p)
            op = ["perm", p]
            b = np.transpose(a, p)
        elif k == "move":
            if nd < 2:
                continue
            op = ["move", rng.randrange(nd), rng.randrange(nd)]
            b = np.moveaxis(a, op[1], op[2])
        elif k == "expand":
            if nd >= 4:
                continue
            op = ["expand", rng.randrange(nd + 1)]
            b = np.expand_dims(a, op[1])
        elif k == "squeeze":
            if nd < 2 or all(d == 1 for d in a.shape) or 1 not in a.shape:
                continue
            op = ["squeeze"]
            b = np.squeeze(a)
        elif k == "flip":
            if nd == 0:
                continue
            op = ["flip", rng.randrange(nd)]
            b = np.flip(a, op[1])
        else:
            if nd >= 4 or nd == 0:
                continue
            op = ["bcast", [rng.choice([1, 2, 3])] + list(a.shape)]
            b = np.broadcast_to(a, tuple(op[1]))
        if not zero_ok and b.size == 0:
            continue
        if b.size > 4000:
            continue
        out.append(op)
        a = b
    return out


def apply_view(lib, a, op):
    k = op[0]
    if k == "idx":
        return a[mk_index(op[1])]
    if k == "T":
        return a.T
    if k == "swap":
        return lib.swapaxes(a, op[1], op[2])
    if k == "perm":
        return lib.transpose(a, tuple(op[1]))
    if k == "move":
        return lib.moveaxis(a, op[1], op[2])
    if k == "expand":
        return lib.expand_dims(a, op[1])
    if k == "squeeze":
        return lib.squeeze(a)
    if k == "flip":
        return lib.flip(a, op[1])
    if k == "bcast":
        return lib.broadcast_to(a, tuple(op[1]))
    raise AssertionError(op)


def gen_arr(rng, np, dts=None, maxn=200, chain=3, nd=None, fill=None):
    s = {"dtype": rng.choice(dts or DT), "shape": gen_shape(rng, maxn, nd), "seed": rng.randrange(10 ** 6),
         "fill": fill or rng.choice(["ramp", "rand"])}
    s["chain"] = gen_chain(rng, np, s["shape"], chain)
    return s


def build(rp, np, spec):
    """(rumpy array, numpy array) with the same history. The base comes in as raw bytes."""
    n = data(np, spec)
    r = rp.frombuffer(n.tobytes(), dtype=spec["dtype"]).reshape(tuple(spec["shape"]))
    for op in spec["chain"]:
        n = apply_view(np, n, op)
        r = apply_view(rp, r, op)
    return r, n


def model(np, spec):
    n = data(np, spec)
    for op in spec["chain"]:
        n = apply_view(np, n, op)
    return n


def same(np, a, b):
    """Exactly the same element type, shape and elements (any NaN equals any NaN, zeros keep their sign)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
    if a.tobytes() == b.tobytes():
        return True
    if a.dtype.kind == "c":
        f = "f%d" % (a.dtype.itemsize // 2)
        a, b = a.view(f), b.view(f)
    if a.dtype.kind != "f":
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not (na == nb).all():
        return False
    return a[~na].tobytes() == b[~nb].tobytes()


def brief(np, x, n=12):
    try:
        a = np.asarray(x)
        return "%s%s %s" % (a.dtype, a.shape, a.ravel()[:n].tolist())
    except BaseException as e:
        return "?%s" % type(e).__name__
