"""The whole callable surface of the module, with seeded operands of every element type, shape and memory layout.

A call is JSON: [name, [arg, ...], {keyword: arg}] with arg = ["a", spec] (an array), ["l", [arg...]] (a list), or
["v", value]. Array specs carry their own layout, so a call can be rebuilt with the same layout, or with plain
contiguous operands holding the same values.
"""
import json
import random

from . import arrlib as A

INT = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLT = ["float64", "float64", "float64", "float32", "float32", "float16"]
CPX = ["complex128", "complex128", "complex64"]
REAL = INT + FLT + FLT + ["bool"]
NUM = REAL + CPX + CPX
ANY = NUM + ["datetime64[ns]", "datetime64[D]", "datetime64[s]", "timedelta64[s]"]
STR = ["U3", "S4", "U6"]


# ------------------------------------------------------------------ arrays with a layout

def lay_spec(rng, shape, dtype, fill, plain=0.25):
    nd = len(shape)
    s = {"dtype": dtype, "shape": list(shape), "seed": rng.randrange(10 ** 6), "fill": fill}
    if rng.random() < plain or nd == 0:
        return s
    perm = list(range(nd))
    if rng.random() < 0.5:
        rng.shuffle(perm)
    s["perm"] = perm
    ax = []
    for _ in range(nd):
        k = rng.random()
        step = 1 if k < 0.55 else rng.choice([2, 3]) if k < 0.75 else -1 if k < 0.9 else -2
        ax.append([step, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1])])
    s["ax"] = ax
    if rng.random() < 0.08:
        s["bc"] = rng.randrange(nd)
    return s


def small_data(np, spec):
    """Values small enough that sums are exact in any order."""
    r = random.Random(spec["seed"])
    d = np.dtype(spec["dtype"])
    shape = tuple(spec["shape"])
    n = A.prod(shape)
    fill = spec["fill"]
    if d.kind in "US":
        return A.data(np, spec)
    if n > 4000:
        base = np.arange(n) % 9
    else:
        base = np.array([r.randrange(0, 9) for _ in range(n)], dtype="int64")
    if d.kind == "b":
        a = base % 2 == 1
    elif d.kind == "u":
        a = base
    elif d.kind in "Mm":
        return (base * 37 + 10).astype("int64").view(d).reshape(shape)
    elif fill == "unit":
        a = base / 8.0
    elif fill == "pos":
        a = base + 1
    else:
        a = base - 4
    if d.kind == "f" and fill not in ("unit", "pos"):
        a = a * 0.5
    if d.kind == "c":
        a = a * 0.5 + 1j * ((base * 5) % 7 - 3)
    a = np.array(a).astype(d)
    if fill == "nan" and d.kind in "fc" and n:
        for _ in range(r.randrange(1, 4)):
            a[r.randrange(n)] = r.choice([np.nan, np.inf, -np.inf, -0.0])
    return a.reshape(shape)


def values(np, spec):
    v = A.data(np, spec) if spec["fill"] in ("rand", "ramp") else small_data(np, spec)
    num = v.dtype.kind in "fciu"
    if num and spec["fill"] == "dom" and len(spec["shape"]) >= 2:  # diagonally dominant, so well conditioned
        m = spec["shape"][-1]
        v = v + (np.eye(spec["shape"][-2], m) * (8 * m + 8)).astype(v.dtype)
    if num and spec["fill"] == "spd" and len(spec["shape"]) >= 2 and spec["shape"][-1] == spec["shape"][-2]:
        m = spec["shape"][-1]
        v = ((v + np.conj(np.swapaxes(v, -1, -2))) / 2).astype(v.dtype) + (np.eye(m) * (8 * m + 8)).astype(v.dtype)
    if spec["fill"] == "sorted":
        v = np.sort(v, axis=None).reshape(v.shape)
    if "bc" in spec:
        ax = spec["bc"]
        v = np.broadcast_to(np.take(v, [0], axis=ax), v.shape) if v.size else v
    return np.ascontiguousarray(v).reshape(tuple(spec["shape"]))


class OperandRefused(Exception):
    """rumpy would not build an ordinary array or view: reported as a violation, not as a harness error."""
    sim_violation = "operand-refused"


def build(rp, np, spec, plain=False, keep=None):
    """(rumpy array, values) from its spec; everything in the buffer around the operand is filler."""
    v = values(np, spec)
    try:
        return build_(rp, np, spec, plain, keep, v)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        raise OperandRefused("%s for %r" % (repr(e)[:300], spec))


def build_(rp, np, spec, plain, keep, v):
    dt = spec["dtype"]
    shape = tuple(spec["shape"])
    if plain or "perm" not in spec:
        r = rp.frombuffer(v.tobytes(), dtype=dt)
        if keep is not None:
            keep.append((r, v.tobytes()))
        return r.reshape(shape), v
    perm, ax = spec["perm"], spec["ax"]
    bc = spec.get("bc")
    if v.size == 0:
        bc = None
    src = v if bc is None else np.take(v, [0], axis=bc)
    inner = [src.shape[p] for p in perm]          # axis order in memory
    dims, sl = [], []
    for n, (st, lo, hi) in zip(inner, ax):
        span = (n - 1) * abs(st) + 1 if n else 0
        dims.append(lo + span + hi)
        if st > 0:
            sl.append(slice(lo, lo + span, st))
        else:
            stop = lo - 1
            sl.append(slice(lo + span - 1, None if stop < 0 else stop, st) if n else slice(0, 0, 1))
    base = np.frombuffer(bytes((7 * i + 91) % 251 for i in range(A.prod(dims) * np.dtype(dt).itemsize)), dtype="u1").copy()
    if np.dtype(dt).kind == "b":
        base &= 1
    base = base.view(dt).reshape(dims) if base.size else np.zeros(dims, dtype=dt)
    inv = [perm.index(i) for i in range(len(perm))]
    base[tuple(sl)].transpose(inv)[...] = src
    r = rp.frombuffer(base.tobytes(), dtype=dt)
    if keep is not None:
        keep.append((r, base.tobytes()))
    r = r.reshape(tuple(dims))
    r = r[tuple(sl)] if len(sl) > 1 else r[sl[0]]
    if len(perm) > 1:
        r = rp.transpose(r, tuple(inv))
    if bc is not None:
        r = rp.broadcast_to(r, shape)
    return r, v


# ------------------------------------------------------------------ argument kinds

class G:
    """Draws arguments; remembers the last shape so that operands fit together."""

    def __init__(self, rng, fills=("small",), big=0.0, hostile=0.0):
        self.r, self.fills, self.big, self.hostile = rng, fills, big, hostile
        self.last = None
        self.ldt = None

    def shape(self, nd=None):
        r = self.r
        if r.random() < self.big:
            n = r.choice([33, 64, 127, 129, 1000, 2100, 4099])
            if nd in (None, 1):
                return [n]
            return [1] * (nd - 2) + [r.choice([2, 3]), max(1, n // 3)]
        return A.gen_shape(r, 150, nd)

    def arr(self, dts, nd=None, shape=None, fill=None, nonempty=False):
        r = self.r
        if r.random() < self.hostile:
            dts = ANY + STR
            if r.random() < 0.5:
                shape, nd = None, None
        if shape is None:
            shape = [] if (nd is None and r.random() < 0.04) else self.shape(nd)
            if nonempty:
                shape = [max(1, d) for d in shape]
        self.last = shape
        dt = r.choice(dts)
        self.ldt = dt
        return ["a", lay_spec(r, shape, dt, fill or r.choice(self.fills))]

    def num(self, v, wild=(0, -1, 1, 2, 3, 7, 100, -100, 2 ** 31, 2 ** 62, -2 ** 62)):
        if self.r.random() < self.hostile:
            return ["v", self.r.choice(wild)]
        return ["v", v]

    def get(self, kind):
        r = self.r
        L = self.last
        if kind == "A":
            return self.arr(ANY)
        if kind == "N":
            return self.arr(NUM)
        if kind == "NE":
            return self.arr(NUM, nonempty=True)
        if kind == "R":
            return self.arr(REAL)
        if kind == "RE":
            return self.arr(REAL, nonempty=True)
        if kind == "F":
            return self.arr(FLT)
        if kind == "Fu":
            return self.arr(FLT, fill="unit")
        if kind == "Fp":
            return self.arr(FLT, fill="pos")
        if kind == "I":
            return self.arr(INT)
        if kind == "IB":
            return self.arr(INT + ["bool"])
        if kind == "Ip":
            return self.arr(["int64", "int32", "uint8"], fill="pos")
        if kind == "bits":
            return self.arr(["uint8", "uint8", "bool"], nd=r.choice([1, 2]))
        if kind == "u8":
            return self.arr(["uint8"], nd=r.choice([1, 2]))
        if kind == "B":
            return self.arr(["bool"])
        if kind in ("N1", "R1", "I1", "F1", "A1"):
            d = {"N": NUM, "R": REAL, "I": INT, "F": FLT, "A": ANY}[kind[0]]
            return self.arr(d, nd=1, nonempty=True)
        if kind == "F64_1":
            return self.arr(["float64", "float32", "int64"], nd=1, nonempty=True)
        if kind == "pts":    # every column is a dimension of the result
            return self.arr(REAL, shape=[r.randrange(1, 9), r.randrange(1, 4)])
        if kind == "sorted1":
            return self.arr(["float64", "int64", "float32"], nd=1, fill="sorted", nonempty=True)
        if kind in ("N2", "R2", "A2"):
            d = {"N": NUM, "R": REAL, "A": ANY}[kind[0]]
            return self.arr(d, nd=2, nonempty=True)
        if kind == "N3":
            return self.arr(NUM, nd=3, nonempty=True)
        if kind == "sameN":      # same shape as the last operand, any element type
            return self.arr(NUM, shape=list(L))
        if kind == "sameR":
            return self.arr(REAL, shape=list(L))
        if kind == "sameI":
            return self.arr(INT, shape=list(L))
        if kind == "sameA":
            return self.arr(ANY, shape=list(L))
        if kind == "sameB":
            return self.arr(["bool"], shape=list(L))
        if kind == "sameT":      # same shape and type
            return self.arr([self.ldt], shape=list(L))
        if kind in ("bcN", "bcR", "bcI", "bcA"):  # broadcasts with the last operand
            d = {"N": NUM, "R": REAL, "I": INT + ["bool"], "A": ANY}[kind[2]]
            if r.random() < 0.15:
                return ["v", r.choice([1, 2, 3, 2.5, -1.5])]
            if r.random() < 0.5:
                d = [self.ldt]
            sh = [x if r.random() < 0.75 else 1 for x in L]
            sh = sh[r.choice([0, 0, 0, 1]):]
            keep = L
            a = self.arr(d, shape=sh)
            self.last = keep
            return a
        if kind == "ax":
            n = len(L)
            return self.num(r.randrange(n) if n else 0)
        if kind == "ax?":
            n = len(L)
            if r.random() < 0.35 or not n:
                return ["v", None]
            return self.num(r.randrange(n))
        if kind == "nax":
            n = len(L)
            return self.num(r.randrange(-n, n) if n else 0)
        if kind == "nax?":
            n = len(L)
            if r.random() < 0.35 or not n:
                return ["v", None]
            return self.num(r.randrange(-n, n))
        if kind == "axnew":
            return self.num(r.randrange(len(L) + 1))
        if kind == "k":
            return self.num(r.choice([0, 0, 1, -1, 2]), wild=(0, -1, 7, 100, -100))
        if kind == "n":
            return self.num(r.randrange(1, 6), wild=(0, -1, 1, 7, 100, -100, -2 ** 62))
        if kind == "kth":
            return self.num(r.randrange(max(1, L[-1] if L else 1)))
        if kind == "shift":
            return self.num(r.choice([0, 1, -1, 2, 5, -7]))
        if kind == "q":
            return ["v", r.choice([0.0, 0.25, 0.5, 0.75, 1.0])] if r.random() < 0.9 else ["v", r.choice([0, 1])]
        if kind == "q100":
            return ["v", r.choice([0.0, 25.0, 50.0, 75.0, 100.0])]
        if kind == "dt":
            return ["v", r.choice(["float64", "float32", "int64", "int32", "uint8", "complex128", "bool", "float16"])]
        if kind == "dt?":
            return ["v", None] if r.random() < 0.5 else self.get("dt")
        if kind == "idx1":
            n = L[0] if L else 1
            m = r.randrange(1, 5)
            v = [r.randrange(-n, n) if n else 0 for _ in range(m)]
            if r.random() < self.hostile:
                v[0] = r.choice([n, -n - 1, 2 ** 40, -2 ** 40])
            return ["i", v]
        if kind == "idxflat":
            n = A.prod(L)
            v = [r.randrange(n) if n else 0 for _ in range(r.randrange(1, 5))]
            if r.random() < self.hostile:
                v[0] = r.choice([n, -n - 1, 2 ** 40, -2 ** 40])
            return ["i", v]
        if kind == "reps":
            return self.num(r.randrange(0, 4), wild=(0, 1, -1, 3))
        if kind == "bshape":
            return ["v", [r.choice([1, 2, 3])] + list(L)]
        if kind == "perm":
            p = list(range(len(L)))
            r.shuffle(p)
            if p and r.random() < self.hostile:
                p[0] = r.choice([p[-1], len(p), -1])
            return ["v", p]
        if kind == "shape":
            return ["v", [r.randrange(0, 5) for _ in range(r.randrange(1, 4))]]
        if kind == "reshape":
            return ["v", [-1]] if r.random() < 0.5 else ["v", [A.prod(L)]]
        if kind == "padw":
            return self.num(r.randrange(0, 4), wild=(0, 1, 5))
        if kind == "sq":     # well-conditioned square matrix, sometimes a stack
            m = r.randrange(1, 6) if r.random() >= self.big * 3 else r.choice([17, 33, 50])
            return self.arr(["float64", "float64", "float32", "complex128"], shape=[m, m], fill="dom")
        if kind == "sqs":
            m = r.randrange(1, 5)
            return self.arr(["float64", "float64", "complex128"], shape=[r.randrange(1, 4), m, m], fill="dom")
        if kind == "spd":
            m = r.randrange(1, 6)
            return self.arr(["float64", "float64", "float32", "complex128"], shape=[m, m], fill="spd")
        if kind == "mat":
            m, n = r.randrange(1, 6), r.randrange(1, 6)
            return self.arr(["float64", "float64", "float32", "complex128"], shape=[m, n])
        if kind == "rhs":
            m = L[0] if L else 1
            return self.arr(["float64"], shape=[m] if r.random() < 0.5 else [m, r.randrange(1, 4)])
        if kind == "mm":     # conforms with the last operand for matmul
            keep = L
            k = L[-1] if L else 1
            if r.random() < 0.4:
                a = self.arr([self.ldt] + NUM, shape=[k])
            elif len(L) > 2 and r.random() < 0.5:
                a = self.arr([self.ldt] + NUM, shape=list(L[:-2]) + [k, r.randrange(1, 5)])
            else:
                a = self.arr([self.ldt] + NUM, shape=[k, r.randrange(1, 5)])
            self.last = keep
            return a
        if kind == "vec3":
            return self.arr(REAL, shape=[3])
        if kind == "len":    # 1-D, same length as the last operand
            return self.arr(FLT, shape=[A.prod(L)])
        if kind == "lenI":
            return self.arr(["int64", "int32"], shape=[A.prod(L)], fill="pos")
        if kind.startswith("tuple:"):
            return ["t", self.get("list:" + kind[6:])[1]]
        if kind.startswith("list:"):
            sub = kind[5:]
            first = self.get(sub)
            out = [first]
            base = list(self.last)
            dt = self.ldt
            for _ in range(r.randrange(1, 4) if r.random() < 0.9 else 0):
                out.append(self.arr([dt] if r.random() < 0.6 else ANY if sub[0] == "A" else NUM, shape=list(base)))
            self.last = base
            return ["l", out]
        if kind == "cat0":   # arrays that differ in axis 0 only
            first = self.arr(ANY, nonempty=True)
            base = list(self.last) or [1]
            first = self.arr(ANY, shape=base)
            dt = self.ldt
            out = [first]
            for _ in range(r.randrange(0, 3)):
                out.append(self.arr([dt] if r.random() < 0.6 else NUM, shape=[r.randrange(0, 4)] + base[1:]))
            self.last = base
            return ["l", out]
        if kind == "S":
            return self.arr(STR, nd=r.choice([1, 2]), fill="rand")
        if kind == "sameS":
            return self.arr(STR, shape=list(L), fill="rand")
        if kind == "D":
            return self.arr(["datetime64[D]"], nd=1)
        if kind == "T":
            return self.arr(["datetime64[D]", "datetime64[s]", "datetime64[ns]"])
        if kind == "str":
            return ["v", r.choice(["a", "b", "z0", " ", "0"])]
        if kind == "bool":
            return ["v", r.choice([True, False])]
        if kind == "f":
            return ["v", r.choice([0.0, 1.0, 2.5, -1.5, 0.5])]
        if kind == "f?":
            return ["v", r.choice([None, 0.0, 1.0, -1.5])]
        if kind == "axes":   # several axes at once
            n = len(L)
            p = list(range(n))
            r.shuffle(p)
            p = [x - n if r.random() < 0.3 else x for x in p[:r.randrange(1, n + 1)]] if n else []
            if p and r.random() < self.hostile:
                p[0] = r.choice([p[-1], n, -n - 1])
            return ["v", p]
        if kind == "axpair":
            n = len(L)
            p = r.sample(range(n), 2) if n > 1 else [0, 1]
            if r.random() < self.hostile:
                p[0] = r.choice([p[1], n, -1])
            return ["v", p]
        if kind == "axlast?":
            return ["v", r.choice([None, -1] + list(range(len(L))))]
        if kind == "w":
            return self.arr(FLT, shape=list(L), fill="pos")
        if kind == "one":
            return self.arr(REAL, shape=r.choice([[], [1], [1, 1]]))
        if kind == "dims":   # bounds for as many index arrays as the last list had
            return ["v", [r.choice([5, 7]) for _ in range(self.count)]]
        if kind == "mi":     # equally long lists of indices
            n, lo = r.randrange(0, 6), r.choice([0, 0, -2])
            self.count = r.randrange(1, 4)
            return ["L", [[r.randrange(lo, 5) for _ in range(n)] for _ in range(self.count)]]
        if kind == "date":
            return ["v", "20%02d-%02d-%02d" % (r.randrange(0, 60), r.randrange(1, 13), r.randrange(1, 29))]
        if kind == "dates":
            return ["L", [self.get("date")[1] for _ in range(r.randrange(0, 5))]]
        if kind == "one1":
            return self.arr(["float64"], shape=[1])
        if kind == "two1":
            return self.arr(["float64"], shape=[2])
        if kind == "mi2":
            sh = [r.randrange(1, 4), r.randrange(1, 5)]
            self.count = sh[0]
            return ["x", sh, 5, r.randrange(10 ** 6)]
        if kind == "qlist":
            return ["L", [r.choice([0.0, 0.25, 0.5, 0.75, 1.0]) for _ in range(r.randrange(0, 4))]]
        if kind == "q100list":
            return ["L", [r.choice([0.0, 10.0, 50.0, 75.0, 100.0]) for _ in range(r.randrange(0, 4))]]
        if kind == "ilist":
            n = A.prod(L)
            return ["L", [r.randrange(-n, n) if n else 0 for _ in range(r.randrange(1, 4))]]
        if kind.startswith("#"):
            return ["v", json.loads(r.choice(kind[1:].split("|")))]
        if kind.startswith("="):
            return ["v", r.choice(kind[1:].split("|"))]
        raise AssertionError(kind)


def table():
    t = {}

    def add(names, *sigs):
        for n in names.split():
            t.setdefault(n, []).extend(s.split() for s in sigs)

    add("abs absolute negative positive square conj conjugate real imag isfinite isinf isnan sign reciprocal exp exp2 expm1 "
        "sin cos tan sinh cosh tanh arctan arcsinh cbrt iscomplex isreal logical_not nan_to_num angle real_if_close", "N")
    add("ceil floor trunc rint fix fabs sqrt signbit spacing isposinf isneginf deg2rad rad2deg degrees radians sinc i0 round frexp modf asinh atan log1p unwrap", "R")
    add("log log10 log2 acosh arccosh", "Fp")
    add("acos arccos asin arcsin arctanh atanh", "Fu")
    add("bitwise_not invert", "IB")
    add("add subtract multiply divide true_divide equal not_equal less less_equal greater greater_equal maximum minimum fmax fmin power pow logical_and logical_or logical_xor",
        "N bcN", "N sameT", "N sameT", "N sameN")
    add("floor_divide mod remainder fmod arctan2 hypot copysign logaddexp logaddexp2 nextafter float_power divmod heaviside", "R bcR", "R sameT", "R sameR")
    add("bitwise_and bitwise_or bitwise_xor left_shift right_shift gcd lcm", "I bcI", "Ip sameT", "I sameI")
    add("ldexp", "F sameI")
    add("sum prod mean std var max min amax amin argmax argmin all any ptp median nansum nanprod nanmean nanstd nanvar nanmax nanmin nanargmax nanargmin nanmedian cumsum cumprod nancumsum nancumprod", "NE ax?", "RE ax?", "RE", "RE ax?")
    add("count_nonzero nonzero argwhere flatnonzero", "N", "B")
    add("average", "RE ax?")
    add("percentile nanpercentile", "RE q100 ax?")
    add("quantile nanquantile", "RE q ax?")
    add("cumulative_sum cumulative_prod", "RE axis=ax include_initial=bool")
    add("allclose array_equal isclose", "N bcN", "N sameT", "R sameR")
    add("append", "A sameT", "A sameT ax", "N sameN")
    add("argsort sort", "A", "R nax")
    add("argpartition partition", "R1 kth", "RE kth")
    add("array asarray", "A", "A dt?", "N dt")
    add("copy ravel flatten squeeze atleast_1d atleast_2d atleast_3d empty_like", "A")
    add("zeros_like ones_like ascontiguousarray asfortranarray", "A", "N dt?")
    add("full_like", "N f", "N f dt?")
    add("array_split", "A n", "A n ax")
    add("split hsplit vsplit dsplit", "A n")
    add("bincount", "Ip")
    add("block", "list:N")
    add("broadcast_arrays", "list:N")
    add("broadcast_to", "A bshape")
    add("choose", "I list:sameN")
    add("clip", "R f f", "N f? f?")
    add("column_stack dstack hstack row_stack vstack concat concatenate stack", "list:A", "list:N")
    add("concat concatenate", "cat0", "list:A ax")
    add("stack", "list:A axnew")
    add("compress", "B sameA", "B sameA ax")
    add("convolve correlate", "R1 R1 =full|same|valid", "N1 sameT =full|same|valid")
    add("corrcoef cov", "R2", "R1")
    add("cross", "vec3 vec3")
    add("delete", "A idx1", "A k ax")
    add("det inv slogdet_ eigh", "sq")
    add("diag diagflat", "A1 k_", "A1", "A2")
    add("diagonal trace", "N2", "N3")
    add("diff", "R", "R n nax", "N")
    add("digitize", "R sorted1", "R sorted1 bool")
    add("dot inner matmul vdot outer kron", "N1 sameT", "N1 sameN", "N2 mm", "N1 N1", "N2 sameT")
    add("matmul", "N2 mm", "N3 mm", "N2 mm")
    add("ediff1d", "R")
    add("einsum", "=ij->ji|ij->ij|ji->ij|ij->i|ij->|ij->j N2", "=ii->i|ii sq", "=ij,jk->ik|ij,jk->ki|ij,jk->ijk N2 mm", "=ij,ij->ij|ij,ij->|ij,ij->i N2 sameT", "=i,j->ij N1 N1", "=bij->bji|bij->ij|bij->jib|bij->bi N3")
    add("expand_dims", "A axnew")
    add("extract", "B sameA", "N sameN")
    add("flip", "A", "A ax")
    add("fliplr flipud", "A2")
    add("gradient", "F64_1", "R2")
    add("histogram", "R n", "R")
    add("histogram_bin_edges", "R n")
    add("histogram2d", "R1 sameR n")
    add("in1d isin setdiff1d", "R R", "N sameT", "I I")
    add("intersect1d setxor1d union1d", "R R", "N sameT", "I I")
    add("insert", "N k f", "N k f ax")
    add("interp", "R sorted1 len", "F64_1 sorted1 len")
    add("iscomplexobj isrealobj isscalar ndim shape size", "A")
    add("ix_", "I1 I1")
    add("matrix_transpose", "A2")
    add("meshgrid", "N1 N1", "R1 R1 indexing==xy|ij")
    add("moveaxis", "A nax nax")
    add("norm", "RE", "mat")
    add("packbits", "bits")
    add("unpackbits", "u8")
    add("pad", "N padw", "N padw =constant|edge|reflect|wrap|symmetric")
    add("permute_dims transpose", "A perm")
    add("transpose", "A")
    add("polyder polyint roots", "F64_1")
    add("polyfit", "F64_1 len n")
    add("polyval", "F64_1 R")
    add("qr svd", "mat")
    add("repeat", "A reps", "A reps ax")
    add("reshape", "A reshape")
    add("resize", "A shape")
    add("result_type common_type", "N N")
    add("roll", "A shift", "A shift ax")
    add("rollaxis", "A ax")
    add("rot90", "A2 k")
    add("searchsorted", "sorted1 R", "sorted1 f")
    add("select", "list:B list:sameN", "list:B list:sameT f")
    add("shares_memory may_share_memory", "A sameA")
    add("solve", "sq rhs")
    add("swapaxes", "A ax ax")
    add("take", "A idxflat", "A idx1 ax0")
    add("take_along_axis", "A sameIdx ax0", "A sameIdx ax")
    add("tensordot", "N2 mm2 =1", "N2 sameT =2")
    add("tile", "A reps")
    add("trapezoid", "R", "R1")
    add("tril triu", "N2", "N2 k", "N3 k")
    add("trim_zeros", "R1", "N1")
    add("unique unique_all unique_counts unique_inverse unique_values", "R", "N", "A")
    add("unravel_index", "Ip bshape2")
    add("unstack", "A", "A ax")
    add("where", "B sameN sameN", "B sameA sameT", "N sameN sameN", "B bcA sameT")
    add("isnat datetime_as_string", "T")
    add("busday_count", "date date", "dates date", "dates date")
    add("is_busday", "D")
    add("busday_offset", "date #-30|-1|0|4|200", "dates #-2|1|11")
    add("tril_indices_from triu_indices_from diag_indices_from", "sq")
    add("zeros ones empty", "shape", "shape dt?")
    add("full", "shape f dt?")
    for f in "acos asin".split():
        pass
    add("emath.arccos emath.arcsin emath.log emath.log10 emath.log2 emath.sqrt emath.arctanh", "R", "F")
    add("emath.power", "R k2")
    add("linalg.det linalg.inv linalg.slogdet linalg.cond linalg.eig linalg.eigvals linalg.matrix_rank linalg.pinv linalg.qr linalg.svd linalg.svdvals linalg.norm linalg.matrix_norm", "sq", "mat", "sq")
    add("linalg.cholesky linalg.eigh linalg.eigvalsh", "spd")
    add("linalg.lstsq linalg.solve", "sq rhs")
    add("linalg.matrix_power", "sq n")
    add("linalg.multi_dot", "list:sq")
    add("linalg.norm linalg.vector_norm", "RE")
    add("linalg.tensorinv", "sq =1")
    add("fft.fft fft.ifft fft.rfft fft.irfft fft.hfft fft.ihfft", "NE", "N1", "F64_1")
    add("fft.fft2 fft.ifft2 fft.rfft2 fft.irfft2", "N2", "R2")
    add("fft.fftn fft.ifftn fft.rfftn fft.irfftn fft.fftshift fft.ifftshift", "NE", "R2", "N1")
    for f in "capitalize lower upper swapcase title strip lstrip rstrip isalnum isalpha isdecimal isdigit islower isnumeric isspace istitle isupper str_len expandtabs".split():
        add("char." + f, "S")
    for f in "add equal not_equal less less_equal greater greater_equal".split():
        add("char." + f, "S sameS")
    for f in "count endswith find rfind startswith partition rpartition".split():
        add("char." + f, "S str")
    for f in "center ljust rjust zfill multiply".split():
        add("char." + f, "S n")
    add("char.replace", "S str str")
    for f in "all any max min mean prod std sum var".split():
        add("nd." + f, "NE ax?", "RE ax? keepdims=bool", "RE")
    for f in "skew kurtosis".split():
        add("nd." + f, "R", "RE ax?")
    add("nd.argmax nd.argmin nd.cumsum nd.cumprod nd.ptp", "RE ax?", "RE")
    add("nd.argsort", "R", "R nax")
    add("nd.argpartition", "R1 kth")
    add("nd.astype", "N dt", "A dt")
    add("nd.choose", "I list:sameN")
    add("nd.clip", "R f f")
    add("nd.compress", "B bools", "A bools")
    add("nd.conj nd.copy nd.flatten nd.ravel nd.squeeze nd.tobytes nd.tolist nd.transpose nd.nonzero nd.dumps", "A", "N")
    add("nd.diagonal nd.trace", "N2")
    add("nd.dot", "N1 sameT", "N2 mm")
    add("nd.repeat", "A reps", "A reps ax")
    add("nd.round", "N", "R n")
    add("nd.searchsorted", "sorted1 R")
    add("nd.swapaxes", "A ax ax")
    add("nd.take", "A idxflat", "A idx1 ax0")
    for f in "add sub mul truediv".split():
        add("op.__%s__" % f, "N bcN", "N sameT", "N sameT", "N sameN")
        add("op.__r%s__" % f, "N f")
    for f in "floordiv mod pow".split():
        add("op.__%s__" % f, "R bcR", "R sameT", "R sameT")
    for f in "and or xor lshift rshift".split():
        add("op.__%s__" % f, "I bcI", "I sameT")
    for f in "lt le gt ge eq ne".split():
        add("op.__%s__" % f, "A sameT", "N bcN")
    add("op.__neg__ op.__abs__", "N")
    add("op.__invert__", "IB")
    add("op.__matmul__", "N2 mm", "N1 sameT")
    add("op.__str__ op.__repr__", "A")
    add("np.add np.multiply np.maximum", "F sameT")
    add("np.sqrt np.exp np.isfinite", "F")
    add("np.asarray", "A")
    # options, and functions that make arrays from numbers
    add("bartlett blackman hamming hanning", "#0|1|2|5|12|33")
    add("kaiser", "#0|1|2|5|12 #0.0|2.5|14.0")
    add("linspace", "f f n", "f f n dtype=dt?", "#0|-3 #1|7.5 #0|1|2|17 dtype=dt")
    add("logspace", "#0|1 #2|3.5 n", "#0|1 #2|3.5 n base=#2.0|10.0|0.5", "#0|1 #2 n dtype=dt?")
    add("geomspace", "#1|2.5|-1 #100|7.5|-64 n", "#1|2.5 #100|0.5 n dtype=dt?")
    add("eye identity", "n", "n dtype=dt?", "#0|1|9")
    add("tri", "n", "n n k", "n #0|3|7 #0|-2|5 dtype=dt?")
    add("indices", "shape", "shape dt?", "shape dtype==float64|int32|uint8")
    add("diag_indices", "n", "n #1|2|3")
    add("tril_indices triu_indices", "n", "n k", "n k #0|2|6")
    add("fft.fftfreq fft.rfftfreq", "n", "n #0.5|2|1e-3")
    add("einsum_path", "=ij,jk->ik N2 mm")
    add("histogramdd", "pts", "pts n", "pts #[2,3]|[1,4]")
    add("lexsort", "tuple:R1", "tuple:I1", "tuple:N1")
    add("char.index", "S =a|b", "S str")
    add("emath.logn", "#2|3|10 R")
    add("require", "A", "A dt?", "A #null =C|F|CW", "N dt =C|F|W")
    add("can_cast promote_types", "dt dt")
    add("x.mgrid x.ogrid x.mgrid1", "#0|-2|1 #3|5 #2|1|3")
    add("x.float x.int", "one")
    add("x.T x.realimag", "A", "N")
    add("x.radd x.rpow x.rsub", "N f", "I #2|3")
    add("x.rmod x.rfloordiv", "R f", "Ip #7|100")
    add("x.rand x.ror x.rxor", "I #1|6")
    add("x.rlshift x.rrshift", "Ip #1|1024")
    for f in "sum prod mean std var max min amax amin all any ptp median nansum nanprod nanmean nanstd nanvar nanmax nanmin nanmedian".split():
        add(f, "NE axes", "RE axes")
    add("percentile nanpercentile", "RE q100list ax?", "RE q100list")
    add("quantile nanquantile", "RE qlist ax?", "RE qlist")
    add("average", "RE ax? w", "RE weights=w", "RE ax weights=w")
    add("allclose isclose", "R sameR #0.5|0 #0.0|1.0", "F sameT equal_nan=bool", "F sameT #0.1 #0.1 bool")
    add("angle", "N deg=bool")
    add("argpartition partition", "RE #0 nax", "A2 #0 axis=#0|1|-1")
    add("bincount", "Ip #0|3|1000", "Ip minlength=n")
    for f in "center ljust rjust".split():
        add("char." + f, "S n =x|-", "S #12|40 =x|-")
    for f in "count find rfind startswith endswith".split():
        add("char." + f, "S str #0|1|2|-1", "S str #0|1|-3|null #1|2|-1|100")
    for f in "strip lstrip rstrip".split():
        add("char." + f, "S str", "S =ab|z0|0123456789")
    add("char.expandtabs", "S #0|1|3|4")
    add("char.replace", "S str str #0|1|2|-1", "S str =|longer|a n")
    add("cov", "R2 ddof=#0|1|2")
    add("datetime_as_string", "T =Y|M|D|h|s|ms|ns")
    add("diagflat", "A1 k")
    add("ediff1d", "R to_end=f", "R f f", "R to_begin=R1", "I to_end=I1")
    add("fft.fftn fft.ifftn fft.rfftn", "NE axes", "NE axes=axes")
    add("fft.hfft", "N1 n", "NE n")
    add("fft.irfft2", "N2 s=#[3,4]|[8,2]")
    add("fft.irfftn", "NE axes=axes", "R2 #[3,4]")
    add("gradient", "F64_1 f", "R2 axis=ax", "F64_1 sorted1", "R2 f axis=nax")
    add("histogram", "R n range=#[-2,2]|[0.0,1.5]", "R bins=n")
    add("histogram_bin_edges", "R n range=#[-2,2]|[0.0,1.5]", "R sorted1", "R bins=n")
    add("histogram2d", "R1 sameR n range=#[[-1,1],[0,2]]", "R1 sameR #[2,3]", "R1 sameR n density=bool")
    add("in1d isin", "R R invert=bool", "I I bool")
    add("interp", "R sorted1 len f f", "R sorted1 len left=f")
    add("linalg.cond", "mat #null|1|2|-1|-2")
    add("linalg.matrix_norm", "mat #null|1|2|-1|-2", "sq =fro")
    add("linalg.norm norm", "mat =fro|nuc")
    add("linalg.vector_norm", "R1 #0|1|2|3|-1|0.5", "mat #1|2|-1", "N1 ord=#1|2")
    add("linalg.lstsq", "mat rhs", "mat rhs #1e-10|0.5", "sq rhs rcond=#null")
    add("linalg.matrix_rank linalg.pinv", "mat #1e-10|0.5", "mat")
    add("linalg.svd svd", "mat full_matrices=bool", "sq bool")
    add("linalg.qr qr", "mat")
    add("linalg.tensorsolve", "sq rhs")
    add("nan_to_num", "F f f f", "F nan=f", "F posinf=f neginf=f")
    add("nd.compress", "B bools ax0", "A bools ax0", "A bools axis=ax0")
    add("nd.kurtosis nd.skew", "RE ax keepdims=bool", "RE keepdims=bool")
    add("nd.searchsorted searchsorted", "sorted1 R =left|right", "sorted1 f =right")
    add("nd.cumsum nd.cumprod nd.argmax nd.argmin", "NE nax")
    add("packbits", "bits nax", "bits ax bitorder==big|little", "bits bitorder==little", "B ax", "I ax", "N3 nax")
    add("unpackbits", "u8 nax", "u8 ax #null|3|8|11", "u8 ax bitorder==little", "u8 bitorder==little", "u8 count=#0|5|9|-3", "u8 #null #5 =little")
    add("pad", "N padw constant_values=f", "N padw =constant f", "A padw", "A padw =edge|wrap")
    add("polyder", "F64_1 m=#0|1|2|3|9")
    add("polyint", "F64_1 m=#0|1|2", "F64_1 #1 one1", "F64_1 #2 two1")
    add("polyfit", "F64_1 len #0|1|2", "F64_1 len n w=len")
    add("ravel_multi_index", "mi dims", "mi dims =raise|clip|wrap", "mi dims =clip|wrap =C|F", "mi dims order==F", "mi2 dims", "mi2 dims =wrap|raise =F|C")
    add("real_if_close", "N #0|1|1000.0")
    add("rollaxis", "A ax axnew")
    add("rot90", "A2 k axpair", "N3 k axes=axpair")
    add("flip", "A nax")
    add("roll", "A shift nax")
    add("round", "N #-2|-1|1|2|5", "R decimals=#-1|3")
    add("split array_split", "A #1|2|3 nax", "A axis=ax num_sections=n")
    add("trapezoid", "R #null f", "R1 sameR", "R dx=f axis=nax", "RE #null #0.5 ax")
    add("tril_indices_from triu_indices_from", "N2 k")
    add("trim_zeros", "R1 =f|b|fb|bf", "N1 trim==f|b")
    add("unravel_index", "Ip #[7,20,20] =C|F", "n #[10,3]", "mi2 #[5,5] order==F", "#7 #[4,5]")
    add("unwrap", "R discont=#0.5|3.0|10.0", "RE axis=nax", "RE period=#1.0|6.28|4.0", "RE #null nax")
    add("delete", "A #0 nax")
    add("insert", "A #0 sameA ax0", "N1 #0|1 N1")
    add("take", "A ilist", "A ilist ax0", "A idx1 axis=nax")
    add("nd.take", "A idx1 axis=nax")
    add("repeat nd.repeat", "A reps nax")
    add("tile", "A shape", "A #[2,1]|[1,2,2]|[0,2]")
    add("take_along_axis", "A sameIdx nax")
    add("cumsum cumprod nancumsum nancumprod diff", "RE nax", "RE axis=nax")
    add("meshgrid", "N1 N1 N1", "R1 R1 R1 indexing==xy|ij", "R1")
    add("moveaxis", "A #[0] #[-1]", "N3 #[0,1] #[-1,-2]")
    add("cross", "R1 sameR")
    add("tensordot", "N3 sameT #3|2", "N2 mm #[[1],[0]]", "N2 sameT #[[0,1],[0,1]]")
    add("outer inner dot", "R2 sameR", "N3 N1", "N1 N2")
    add("kron", "R2 sameR", "N1 N2")
    add("searchsorted", "sorted1 R side==left|right")
    add("digitize", "R sorted1 right=bool")
    add("select", "list:B list:sameN default=f")
    for k in list(t):
        t[k] = [[a for a in s if a not in ("k_",)] for s in t[k]]
    t.pop("slogdet_", None)
    return t


TABLE = table()
NAMES = sorted(TABLE)


SLOW = {"roots": 40, "poly": 60}


def gen_call(rng, name=None, **kw):
    name = name or rng.choice(NAMES)
    c = gen_call1(rng, name, **kw)
    while name in SLOW and any(a[0] == "a" and A.prod(a[1]["shape"]) > SLOW[name] for a in c[1]):
        c = gen_call1(rng, name, **dict(kw, big=0))
    return c


def gen_call1(rng, name, **kw):
    g = G(rng, **kw)
    args, kws = [], {}
    for a in rng.choice(TABLE[name]):
        k = None
        if "=" in a and not a.startswith("="):
            k, a = a.split("=", 1)
        if a == "ax0":
            v = ["v", 0]
        elif a == "k2":
            v = ["v", rng.choice([2, 3, 0.5])]
        elif a == "bshape2":
            v = ["v", [5, 5, 5]]
        elif a == "bools":
            n = g.last[0] if g.last else 1
            v = ["L", [rng.random() < 0.5 for _ in range(n)]]
        elif a == "mm2":
            v = g.get("mm")
        elif a == "sameIdx":
            n = g.last[0] if g.last else 1
            v = ["x", list(g.last), max(1, n), rng.randrange(10 ** 6)]
            if rng.random() < g.hostile:
                if rng.random() < 0.5:
                    v[2] += rng.choice([1, 50, 10 ** 9])
                else:
                    v.append(-rng.choice([1, v[2], v[2] + 1, 10 ** 9]))
        elif a.startswith("=") and a[1:].lstrip("-").isdigit():
            v = ["v", int(a[1:])]
        else:
            v = g.get(a)
        if k:
            kws[k] = v
        else:
            args.append(v)
    if g.hostile and args and rng.random() < g.hostile:
        i = rng.randrange(len(args))
        x = rng.random()
        if x < 0.3:
            args.pop(i)
        elif x < 0.6:
            args.insert(i, args[i])
        else:
            args[i] = rng.choice([["v", None], ["v", -1], ["v", -2 ** 62], ["v", 300], ["v", "x"], ["l", []], ["v", 0.5], args[0]])
    if name == "busday_offset":          # counts day by day
        args = [["v", 400] if a[0] == "v" and isinstance(a[1], int) and abs(a[1]) > 400 else a for a in args]
    if name == "pad" and len(args) > 1 and args[1][0] == "v" and isinstance(args[1][1], int) and args[1][1] > 9:
        args[1] = ["v", 9]               # in three dimensions more is gigabytes
    if g.hostile and name != "histogramdd" and rng.random() < max(g.hostile, 0.5):
        misfit(rng, args + list(kws.values()))
    return [name, args, kws]


def misfit(rng, args):
    """Change one operand's shape by a little, so that it almost fits the others."""
    flat = []
    for a in args:
        flat += [x for x in (a[1] if a[0] in ("l", "t") else [a]) if x[0] in ("a", "x")]
    if not flat:
        return
    a = rng.choice(flat)
    shape = list(a[1]["shape"] if a[0] == "a" else a[1])
    k = rng.random()
    if not shape or k < 0.1:
        shape.insert(rng.randrange(len(shape) + 1), rng.choice([1, 1, 2]))
    elif k < 0.2:
        shape.pop(rng.randrange(len(shape)))
    else:
        j = rng.randrange(len(shape))
        shape[j] = max(0, rng.choice([1, 1, 0, shape[j] + 1, shape[j] - 1, 2 * shape[j], shape[j] + 5]))
    if prod_(shape) > 20000:
        return
    if a[0] == "x":
        a[1] = shape
    else:
        o = a[1]
        a[1] = lay_spec(rng, shape, o["dtype"], o["fill"])


def prod_(s):
    t = 1
    for d in s:
        t *= d
    return t


def mk_arg(rp, np, a, plain, reg, keep=None):
    k = a[0]
    if k == "same":
        return reg[a[1] % len(reg)][0]
    if k == "a":
        r, v = build(rp, np, a[1], plain, keep)
        reg.append((r, v))
        return r
    if k == "L":
        return list(a[1])
    if k == "t":
        return tuple(mk_arg(rp, np, x, plain, reg, keep) for x in a[1])
    if k == "l":
        return [mk_arg(rp, np, x, plain, reg, keep) for x in a[1]]
    if k == "i":
        v = np.array(a[1], dtype="int64")
        r = rp.frombuffer(v.tobytes(), dtype="int64")
        reg.append((r, v))
        return r
    if k == "x":
        q = random.Random(a[3])
        v = np.array([q.randrange(a[4] if len(a) > 4 else 0, a[2]) for _ in range(A.prod(a[1]))], dtype="int64").reshape(a[1])
        r = rp.frombuffer(v.tobytes(), dtype="int64").reshape(tuple(a[1]))
        reg.append((r, v))
        return r
    v = a[1]
    return tuple(v) if isinstance(v, list) else v


def resolve(rp, np, name):
    if name == "x.mgrid":
        return lambda a, b, c: rp.mgrid[a:b, 0:c]
    if name == "x.ogrid":
        return lambda a, b, c: rp.ogrid[a:b:c, 0:b:2]
    if name == "x.mgrid1":
        return lambda a, b, c: rp.mgrid[a:b:c]
    if name == "x.float":
        return lambda x: float(x)
    if name == "x.int":
        return lambda x: int(x)
    if name == "x.T":
        return lambda x: x.T
    if name == "x.realimag":
        return lambda x: (x.real, x.imag)
    if name in ("x.radd", "x.rpow", "x.rmod", "x.rfloordiv", "x.rand", "x.ror", "x.rxor", "x.rlshift", "x.rrshift", "x.rsub"):
        import operator
        f = {"x.radd": operator.add, "x.rpow": operator.pow, "x.rmod": operator.mod, "x.rfloordiv": operator.floordiv, "x.rand": operator.and_, "x.ror": operator.or_,
             "x.rxor": operator.xor, "x.rlshift": operator.lshift, "x.rrshift": operator.rshift, "x.rsub": operator.sub}[name]
        return lambda x, y: f(y, x)
    if name.startswith("nd.") or name.startswith("op."):
        m = name[3:]
        if m in ("__len__", "__str__", "__repr__", "__abs__", "__neg__", "__pos__", "__invert__"):
            f = {"__len__": len, "__str__": str, "__repr__": repr, "__abs__": abs, "__neg__": lambda x: -x, "__pos__": lambda x: +x, "__invert__": lambda x: ~x}[m]
            return lambda x, *a, **k: f(x, *a, **k)
        return lambda x, *a, **k: getattr(x, m)(*a, **k)
    o = np if name.startswith("np.") else rp
    for p in (name[3:] if name.startswith("np.") else name).split("."):
        o = getattr(o, p)
    if name in ("einsum",):
        return lambda s, *a, **k: o(s, *a, **k)
    return o


def flat(np, x, rp=None):
    """A result as a list of comparable leaves."""
    if isinstance(x, (list, tuple)):
        out = [("seq", len(x))]
        for y in x:
            out += flat(np, y)
        return out
    if isinstance(x, dict):
        out = [("map", sorted(map(str, x)))]
        for k in sorted(x):
            out += flat(np, x[k])
        return out
    if hasattr(x, "__array_interface__") and not isinstance(x, np.generic):
        return [("arr", np.array(np.asarray(x)))]
    return [("val", x)]


def arrays_in(x, np):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in arrays_in(y, np)]
    if isinstance(x, dict):
        return [z for y in x.values() for z in arrays_in(y, np)]
    return [x] if not isinstance(x, type) and hasattr(x, "__array_interface__") else []


TOL = {2: 2e-2, 4: 1e-3, 8: 1e-8}


def leaf_same(np, a, b, exact=False, width=8):
    if a[0] != b[0]:
        return False
    x, y = a[1], b[1]
    if a[0] == "arr":
        if x.dtype != y.dtype or x.shape != y.shape:
            return False
        if exact or x.dtype.kind not in "fc":
            return A.same(np, x, y)
        if A.same(np, x, y):
            return True
        tol = TOL.get(x.dtype.itemsize // (2 if x.dtype.kind == "c" else 1), 1e-6)
        with np.errstate(all="ignore"):
            fin = np.abs(x[np.isfinite(x)]).astype("f8")
            sc = float(fin.max()) if fin.size else 0.0
            w = "c16" if x.dtype.kind == "c" else "f8"
            return bool(np.allclose(x.astype(w), y.astype(w), rtol=tol, atol=tol * max(1.0, sc), equal_nan=True))
    if isinstance(x, float) and isinstance(y, float):
        if x == y or (x != x and y != y):
            return True
        return not exact and abs(x - y) <= TOL.get(width, 1e-6) * max(1.0, abs(x), abs(y))
    if isinstance(x, complex) and isinstance(y, complex):
        if x == y or (x != x and y != y):
            return True
        return not exact and abs(x - y) <= TOL.get(width, 1e-6) * max(1.0, abs(x), abs(y))
    if a[0] == "val" and not isinstance(x, (int, float, str, bytes, bool, type(None))):
        return type(x) is type(y)
    return x == y and type(x) is type(y)


def results_same(np, p, q, exact=False):
    a, b = flat(np, p), flat(np, q)
    if len(a) != len(b):
        return "%d parts against %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if not leaf_same(np, x, y, exact):
            def s(z):
                return A.brief(np, z[1], 10) if z[0] == "arr" else repr(z[1])[:120]
            return "part %d: %s against %s" % (i, s(x), s(y))
    return None


def describe(np, call):
    def d(a):
        if a[0] == "a":
            s = a[1]
            lay = "C" if "perm" not in s else "perm%s ax%s%s" % (s["perm"], s["ax"], " bc%d" % s["bc"] if "bc" in s else "")
            return "%s%s/%s[%s]" % (s["dtype"], tuple(s["shape"]), s["fill"], lay)
        if a[0] in ("l", "t"):
            return "[" + ", ".join(d(x) for x in a[1]) + "]"
        return str(a[1:])
    return "%s(%s%s)" % (call[0], ", ".join(d(a) for a in call[1]), "".join(", %s=%s" % (k, d(v)) for k, v in call[2].items()))
