"""Arrays made from Python objects hold exactly the given values or are refused, whatever the conversions do."""
import math

from ..core import gen_sched, is_panic, Violation
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 36000, "thorough": 500000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least one array was built or one request refused; cases are distinct by their full JSON"
REAL = ["rumpy extension compiled from /repo (array, asarray, full, full_like, item assignment, fill, conversion of Python numbers and foreign arrays)", "CPython 3.12 threads", "numpy as source of foreign arrays"]
STUB = ["thread scheduling (baton scheduler; conversions are scheduling points)", "numbers that yield, raise, lie, call back into rumpy or change their container while being converted", "allocator (fenced)"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points",
          "when a container changes while it is converted, any value it held at some time is accepted"]
SHRINK = ["prog", "prog/*"]
EXC = ["ValueError", "KeyError", "TypeError", "OverflowError", "StopIteration", "KeyboardInterrupt", "Own", "RuntimeError", "IndexError"]
INTS = [0, 1, -1, 2, 7, 127, 128, 255, 256, -129, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 63 - 1, 10 ** 30]
FLOATS = [0.0, -0.0, 0.5, -1.5, 1e300, 5e-324, 0.1, 65519.0, 65520.0, 3.5e38, float("inf"), float("-inf"), float("nan"), 2.0 ** 53, 254.999, -0.9, 1e19, 9.3e18]
DTS = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128"]
FOREIGN = [">f8", ">i2", ">u4", "longdouble", "clongdouble", "O", "V4", "i4,f8", "U3", ">U2", "S2", "M8[D]", "m8[ns]", ">M8[s]", "m8", "M8[25s]", "M8[10ms]"] + DTS


class Own(BaseException):
    pass


def leaf(rng, kinds, wild):
    k = rng.choice(kinds)
    if k == "i":
        return ["i", str(rng.choice(INTS) if rng.random() < 0.35 * wild else rng.randrange(-100, 100))]
    if k == "f":
        return ["f", repr(rng.choice(FLOATS) if rng.random() < 0.4 * wild else rng.randrange(-40, 40) / 4)]
    if k == "b":
        return ["b", rng.random() < 0.5]
    if k == "c":
        return ["c", rng.randrange(-9, 9) / 2, rng.randrange(-9, 9) / 2]
    if k == "s":
        return ["s", rng.choice(["", "a", "bcd", "\u00e9\U0001f600", "0.5", "longer text"])]
    if k == "y":
        return ["y", rng.choice(["", "a", "bcd", "xyzw9"])]
    if k == "x":
        return ["x", rng.choice(["none", "dict", "str", "object", "set", "np.int64", "np.float32", "np.bool_", "frac", "0d", "intsub", "floatsub", "decimal"]), rng.randrange(-50, 50)]
    act = rng.choice(["none", "yield", "yield", "raise", "append", "pop", "clear", "set", "reenter", "lie", "grow"])
    return ["o", rng.choice(["float", "index", "both"]), rng.randrange(-50, 50), act, rng.choice(EXC)]


def gen_tree(rng, kinds, wild, depth, shape, ragged):
    if not shape:
        return leaf(rng, kinds, wild)
    n = shape[0]
    if ragged and rng.random() < 0.25:
        n = max(0, n + rng.choice([-1, 1]))
    t = [gen_tree(rng, kinds, wild, depth + 1, shape[1:], ragged) for _ in range(n)]
    if ragged and t and rng.random() < 0.15:
        t[rng.randrange(len(t))] = leaf(rng, kinds, wild)
    return ["L" if rng.random() < 0.85 else "T", t]


def gen_op(rng):
    k = rng.random()
    if k < 0.6:
        kinds = rng.choice([["i"], ["f"], ["b"], ["i", "f"], ["i", "b"], ["b", "f"], ["i", "f", "b", "c"], ["c"], ["s"], ["y"], ["s", "i"], ["i", "f", "o"], ["o"], ["o", "i"], ["f", "o"],
                            ["i", "f", "x"], ["x"], ["i"]])
        shape = [rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.2 else rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        return {"k": "array", "f": rng.choice(["array", "asarray"]), "tree": gen_tree(rng, kinds, rng.choice([0, 1, 1]), 0, shape, rng.random() < 0.12),
                "dt": rng.choice([None, None, None] + DTS) if not {"s", "y"} & set(kinds) else None,
                "as": rng.choice(["self", "self", "self", "gen", "iter", "tuple", "seq", "raiseiter"]) if len(shape) == 1 else "self"}
    if k < 0.72:
        return {"k": "full", "f": rng.choice(["full", "full_like"]), "v": leaf(rng, ["i", "f", "b", "c", "o"], 1), "dt": rng.choice(DTS), "shape": [rng.choice([0, 1, 2, 3]) for _ in range(rng.choice([1, 2]))]}
    if k < 0.85:
        return {"k": "set", "how": rng.choice(["item", "slice", "fill"]), "v": leaf(rng, ["i", "f", "b", "c", "o"], 1), "dt": rng.choice(DTS), "n": rng.choice([1, 3, 5])}
    shape = A.gen_shape(rng, 60)
    lay = rng.choice(["c", "f", "step", "rev", "ro", "0d", "un", "bc", None, None, None, None])
    if lay is None:
        lay = P.lay_spec(rng, shape, "float64", "rand", plain=0)
        lay = {k: lay[k] for k in ("perm", "ax") if k in lay}
    return {"k": "foreign", "dt": rng.choice(FOREIGN), "shape": shape, "seed": rng.randrange(10 ** 6), "lay": lay,
            "f": rng.choice(["array", "asarray"]), "to": rng.choice([None, None, "float64"])}


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    ops = [[gen_op(rng) for _ in range(rng.randrange(1, 4))] for _ in range(nt)]
    c = {"knobs": {"alloc": rng.choice([1, 2, 3])}, "sched": gen_sched(rng, 120), "prog": ops}
    if nt > 1 and rng.random() < 0.5:   # one list shared by all threads, changed by some while others convert it
        c["shared"] = gen_tree(rng, ["i", "f", "o"], 0, 0, [rng.choice([2, 4]), rng.choice([1, 3])][:rng.choice([1, 2])], False)
        for p in ops:
            for _ in range(rng.randrange(1, 4)):
                p.insert(rng.randrange(len(p) + 1), {"k": rng.choice(["sharr", "sharr", "shmut"]), "m": rng.choice(["append", "pop", "set", "row"]), "v": rng.randrange(100, 200)})
    return c


def size(c):
    return sum(map(len, c["prog"]))


class Held:
    """The values some container has held, and what was injected."""

    def __init__(self):
        self.values, self.exc, self.mutated, self.objs, self.odd = [], [], False, 0, False


def mk_leaf(ctx, t, held, root):
    k = t[0]
    if k == "i":
        v = int(t[1])
    elif k == "f":
        v = float(t[1])
    elif k == "b":
        v = t[1]
    elif k == "c":
        v = complex(t[1], t[2])
    elif k == "s":
        v = t[1]
    elif k == "y":
        v = t[1].encode()
    elif k == "x":
        held.odd = True
        np = ctx.np
        import decimal
        import fractions
        v = {"none": None, "dict": {1: 2}, "str": "12", "object": object(), "set": {1}, "np.int64": np.int64(t[2]), "np.float32": np.float32(t[2]), "np.bool_": np.bool_(t[2] > 0),
             "frac": fractions.Fraction(t[2], 4), "0d": ctx.rp.array([t[2]])[0], "intsub": type("I", (int,), {})(t[2]), "floatsub": type("F", (float,), {})(t[2]), "decimal": decimal.Decimal(t[2])}[t[1]]
    else:
        held.objs += 1
        return mk_obj(ctx, t, held, root)
    held.values.append(v)
    return v


def mk_obj(ctx, t, held, root):
    _, how, val, act, exc = t

    def conv(kind):
        ctx.y("conv")
        if act == "raise":
            e = Own() if exc == "Own" else getattr(__import__("builtins"), exc)("injected")
            held.exc.append(e)
            ctx.probe("fault:conversion raised")
            raise e
        if act == "lie":
            ctx.probe("fault:conversion returned another type")
            held.odd = True
            return "nonsense"
        lst = root[0]
        if act in ("append", "pop", "clear", "set", "grow") and isinstance(lst, list):
            held.mutated = True
            ctx.probe("fault:container changed during conversion")
            if act == "append":
                held.values.append(77)
                lst.append(77)
            elif act == "pop" and lst:
                lst.pop()
            elif act == "clear":
                lst.clear()
            elif act == "set" and lst:
                held.values.append(78)
                lst[-1] = 78
            elif act == "grow":
                if len(lst) < 400:
                    lst.extend(list(lst) * 3)
        if act == "reenter":
            r = ctx.rp.array([1, 2, 3.5])
            if ctx.np.asarray(r).tolist() != [1.0, 2.0, 3.5]:
                ctx.violate("re-entrant-wrong", ctx.np.asarray(r).tolist())
        return float(val) + 0.5 if kind == "float" else val
    d = {}
    if how in ("float", "both"):
        d["__float__"] = lambda s: conv("float")
        held.values.append(float(val) + 0.5)
    if how in ("index", "both"):
        d["__index__"] = lambda s: conv("index")
        held.values.append(val)
    return type("Num", (), d)()


def mk_tree(ctx, t, held, root):
    if t[0] in ("L", "T"):
        out = []
        if root[0] is None:
            root[0] = out
        out.extend(mk_tree(ctx, x, held, root) for x in t[1])
        return out if t[0] == "L" or out is root[0] else tuple(out)
    return mk_leaf(ctx, t, held, root)


def shape_of(t):
    """The rectangular shape of a tree, or None."""
    if t[0] not in ("L", "T"):
        return ()
    subs = [shape_of(x) for x in t[1]]
    if None in subs or len(set(subs)) > 1:
        return None
    return (len(t[1]),) + (subs[0] if subs else ())


def leaves(t):
    return [y for x in t[1] for y in leaves(x)] if t[0] in ("L", "T") else [t]


def sure(t):
    """A plain number."""
    return t[0] in "ifbc"


NO = object()


def stored(np, v, dt):
    """What a plain number becomes in an element type, or NO where it has to be refused."""
    d = np.dtype(dt)
    if d.kind in "USOVMm":
        return NO
    if d.kind == "b":
        return NO if isinstance(v, complex) else bool(v)
    if d.kind in "iu":
        if isinstance(v, complex) or isinstance(v, float) and not math.isfinite(v):
            return NO
        v, ii = int(v), np.iinfo(d)
        return v if ii.min <= v <= ii.max else NO
    if d.kind == "f" and isinstance(v, complex):
        return NO
    try:
        with np.errstate(all="ignore"):
            return d.type(complex(v) if d.kind == "c" else float(v)).item()
    except OverflowError:
        return NO


def eq(a, b):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) is type(b) and a == b
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return eq(a.real, b.real) and eq(a.imag, b.imag)
    if a != a:
        return b != b
    return a == b and (a != 0 or not isinstance(a, float) or not isinstance(b, float) or math.copysign(1, a) == math.copysign(1, b))


def holder(np, vals):
    """The element type that holds all these plain numbers, or None."""
    if not vals:
        return "float64"
    if all(isinstance(v, bool) for v in vals):
        return "bool"
    if any(isinstance(v, complex) for v in vals):
        return "complex128"
    if any(isinstance(v, float) for v in vals):
        return "float64"
    if all(-2 ** 63 <= v < 2 ** 63 for v in vals):
        return "int64"
    return "uint64" if all(0 <= v < 2 ** 64 for v in vals) else None


def flat_items(np, a):
    a = np.asarray(a)
    return [x.item() for x in a.reshape(-1)]


def attempt(ctx, f, held, what):
    """(result, True) or (exception, False); injected exceptions must arrive as they are, others must be ordinary."""
    try:
        return f(), True
    except Violation:
        raise
    except BaseException as e:
        if any(e is x for x in held.exc):
            ctx.probe("injected exception passed through")
            return e, False
        if is_panic(e) or not isinstance(e, Exception):
            ctx.violate("not-an-ordinary-exception", [what, repr(e)[:200]])
        return e, False


def do_array(ctx, op):
    rp, np = ctx.rp, ctx.np
    held, root = Held(), [None]
    obj = mk_tree(ctx, op["tree"], held, root)
    ls, shape = leaves(op["tree"]), shape_of(op["tree"])
    w = op["as"]
    boom = None
    if w == "gen":
        obj = (x for x in obj)
    elif w == "iter":
        obj = iter(list(obj))
    elif w == "tuple":
        obj = tuple(obj)
    elif w == "seq":
        o = obj
        obj = type("Seq", (), {"__getitem__": lambda s, i: o[i], "__len__": lambda s: len(o)})()
    elif w == "raiseiter":
        o = list(obj)

        def g():
            yield from o
            ctx.y("iter")
            boom = Own() if len(o) % 2 else KeyError("iter")
            held.exc.append(boom)
            raise boom
        obj = g()
    what = [op["f"], op["tree"], op["dt"], w]
    kw = {"dtype": op["dt"]} if op["dt"] else {}
    r, ok = attempt(ctx, lambda: getattr(rp, op["f"])(obj, **kw), held, what)
    if held.exc and ok:
        ctx.violate("exception-swallowed", [what, repr(held.exc)])
    plain = all(sure(t) for t in ls)
    if not ok:
        if plain and shape is not None and w != "raiseiter":
            dt = op["dt"] or holder(np, held.values)
            if dt and all(stored(np, v, dt) is not NO for v in held.values):
                ctx.violate("refused", [what, repr(r)[:200]])
        if shape is not None and w == "self" and len(ls) and all(t[0] == ls[0][0] for t in ls) and ls[0][0] in "sy":
            ctx.violate("refused", [what, repr(r)[:200]])
        ctx.probe("refused")
        return
    a = np.asarray(r)
    got = flat_items(np, a)
    if shape is None and not held.mutated:
        ctx.violate("ragged-accepted", [what, a.shape])
    if op["dt"] and a.dtype != np.dtype(op["dt"]):
        ctx.violate("wrong-type", [what, str(a.dtype)])
    if held.mutated:
        dt = a.dtype
        allowed = [stored(np, v, dt) for v in held.values]
        for g in got:
            if not any(x is not NO and eq(g, x) for x in allowed):
                ctx.violate("value-from-nowhere", [what, g, held.values])
        return
    if a.shape != shape:
        ctx.violate("wrong-shape", [what, a.shape, shape])
    if ls and ls[0][0] in "sy":
        want = [t[1] if t[0] == "s" else t[1].encode() if t[0] == "y" else NO for t in ls]
        if len(got) != len(want) or not all(x is not NO and eq(g, x) for g, x in zip(got, want)):
            ctx.violate("wrong-value", [what, got])
        return
    if plain:
        dt = a.dtype
        if not op["dt"] and not any(isinstance(v, float) for v in held.values):
            for g, v in zip(got, held.values):   # integers, booleans and complex numbers come back as they were
                if not eq(g, v):
                    ctx.violate("wrong-value", [what, g, v])
        for g, v in zip(got, held.values):
            s = stored(np, v, dt)
            if s is NO or not eq(g, s):
                ctx.violate("wrong-value" if s is not NO else "unrepresentable-accepted", [what, g, v])
        return
    # conversions involved: every element is the converted value of its own object
    for g, t in zip(got, ls):
        if sure(t):
            s = stored(np, mk_leaf(ctx, t, Held(), [None]), a.dtype)
            good = [s]
        elif t[0] == "o":
            good = [stored(np, v, a.dtype) for v in ([t[2] + 0.5] if t[1] == "float" else [t[2]] if t[1] == "index" else [t[2], t[2] + 0.5])]
        elif t[0] == "x" and t[1] in ("np.int64", "np.float32", "np.bool_", "frac", "0d", "intsub", "floatsub", "decimal"):
            v = t[2] > 0 if t[1] == "np.bool_" else t[2] / 4 if t[1] == "frac" else t[2]
            good = [stored(np, v, a.dtype), stored(np, float(v), a.dtype)]
        else:
            good = ["12"] if t[0] == "x" and t[1] == "str" and a.dtype.kind == "U" else []
        if not any(x is not NO and eq(g, x) for x in good):
            ctx.violate("wrong-value", [what, g, t, str(a.dtype)])


def scalar_expect(ctx, op):
    held = Held()
    v = mk_leaf(ctx, op["v"], held, [[]])
    np = ctx.np
    if op["v"][0] == "o":
        good = [stored(np, x, op["dt"]) for x in held.values]
        must = False
    else:
        good = [stored(np, v, op["dt"])]
        must = good[0] is not NO
    return held, v, [g for g in good if g is not NO], must


def do_full(ctx, op):
    rp, np = ctx.rp, ctx.np
    held, v, good, must = scalar_expect(ctx, op)
    what = [op]
    if op["f"] == "full":
        f = lambda: rp.full(tuple(op["shape"]), v, dtype=op["dt"])
    else:
        f = lambda: rp.full_like(rp.zeros(tuple(op["shape"]), dtype=op["dt"]), v)
    r, ok = attempt(ctx, f, held, what)
    if not ok:
        if must:
            ctx.violate("refused", [what, repr(r)[:200]])
        return
    if held.exc:
        ctx.violate("exception-swallowed", [what])
    a = np.asarray(r)
    if a.shape != tuple(op["shape"]) or a.dtype != np.dtype(op["dt"]) or not all(any(eq(g, x) for x in good) for g in flat_items(np, a)):
        ctx.violate("wrong-value:full", [what, a.tolist(), good])


def do_set(ctx, op):
    rp, np = ctx.rp, ctx.np
    held, v, good, must = scalar_expect(ctx, op)
    n = op["n"]
    h = rp.ones(n + 4, dtype=op["dt"])
    one = flat_items(np, h)[0]

    def f():
        if op["how"] == "item":
            h[2] = v
        elif op["how"] == "slice":
            h[2:2 + n] = v
        else:
            h[2:2 + n].fill(v)
    r, ok = attempt(ctx, f, held, op)
    got = flat_items(np, h)
    k = 1 if op["how"] == "item" else n
    rest = got[:2] + got[2 + k:]
    if any(not eq(x, one) for x in rest):
        ctx.violate("neighbours-changed", [op, got])
    if not ok:
        if must:
            ctx.violate("refused", [op, repr(r)[:200]])
        if any(not eq(x, one) for x in got):
            ctx.violate("changed-by-refused-assignment", [op, got])
        return
    if held.exc:
        ctx.violate("exception-swallowed", [op])
    for g in got[2:2 + k]:
        if not any(eq(g, x) for x in good):
            ctx.violate("wrong-value:set", [op, g, good])


def strided(np, v, perm, ax):
    """The same values with axes in another order in memory, steps and gaps between them."""
    dims, sl = [], []
    for p, (st, lo, hi) in zip(perm, ax):
        n = v.shape[p]
        span = (n - 1) * abs(st) + 1 if n else 0
        dims.append(lo + span + hi)
        stop = lo - 1
        sl.append((slice(lo, lo + span, st) if st > 0 else slice(lo + span - 1, None if stop < 0 else stop, st)) if n else slice(0, 0, 1))
    base = np.zeros(dims, dtype=v.dtype)
    w = base[tuple(sl)].transpose([perm.index(i) for i in range(len(perm))])
    w[...] = v
    return w


def do_foreign(ctx, op):
    rp, np = ctx.rp, ctx.np
    d = np.dtype(op["dt"])
    shape = tuple(op["shape"])
    spec = {"dtype": d.newbyteorder("=").str if d.kind not in "OV" and op["dt"] not in ("longdouble", "clongdouble") else "float64", "shape": op["shape"], "seed": op["seed"], "fill": "rand"}
    with np.errstate(all="ignore"):
        if d.kind in "Mm":
            v = A.data(np, dict(spec, dtype="int64")).view(spec["dtype"])
        else:
            v = A.data(np, spec)
        v = (np.frombuffer(bytes(i % 250 for i in range(A.prod(shape) * d.itemsize)), dtype=d).reshape(shape) if d.kind == "V" else v.astype(d))
    lay = op["lay"]
    if isinstance(lay, dict):
        if lay.get("perm"):
            v = strided(np, v, lay["perm"], lay["ax"])
    elif lay == "f":
        v = np.asfortranarray(v)
    elif lay == "step":
        big = np.zeros(tuple(2 * n for n in shape), dtype=d)
        big[tuple(slice(None, None, 2) for _ in shape)] = v
        v = big[tuple(slice(None, None, 2) for _ in shape)]
    elif lay == "rev":
        v = np.ascontiguousarray(v[::-1])[::-1]
    elif lay == "ro":
        v = v.copy()
        v.flags.writeable = False
    elif lay == "0d":
        v = np.zeros((), dtype=d) if v.size == 0 else v.reshape(-1)[0:1].reshape(())
    elif lay == "un" and d.kind != "O":
        raw = np.zeros(v.nbytes + 1, dtype="u1")
        u = raw[1:].view(d).reshape(shape) if v.nbytes else v
        if v.nbytes:
            u[...] = v
        v = u
    elif lay == "bc":
        v = np.broadcast_to(v, (2,) + shape)
    kw = {"dtype": op["to"]} if op["to"] and d.kind in "f" and d.itemsize == 8 and d.isnative else {}
    r, ok = attempt(ctx, lambda: getattr(rp, op["f"])(v, **kw), Held(), op)
    if not ok:
        if op["dt"] in DTS:
            ctx.violate("refused:foreign", [op, repr(r)[:200]])
        ctx.probe("foreign array refused")
        return
    a = np.asarray(r)
    if a.shape != v.shape:
        ctx.violate("wrong-shape:foreign", [op, a.shape, v.shape])
    w = np.ascontiguousarray(v)
    if d.kind not in "OV" and not d.isnative:
        w = w.astype(d.newbyteorder("="))
    if a.dtype != w.dtype or not A.same(np, a, w.reshape(v.shape)):
        ctx.violate("wrong-value:foreign", [op, str(a.dtype), str(w.dtype), a.tolist(), w.tolist()])


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    sh, root = Held(), [None]
    lst = mk_tree(ctx, case["shared"], sh, root) if "shared" in case else None
    if lst is not None:
        sh.mutated = True
    n = [0]

    def one(op):
        n[0] += 1
        ctx.note("%s" % (op,))
        k = op["k"]
        ctx.y(k)
        if k == "array":
            do_array(ctx, op)
        elif k == "full":
            do_full(ctx, op)
        elif k == "set":
            do_set(ctx, op)
        elif k == "foreign":
            do_foreign(ctx, op)
        elif lst is None:
            return
        elif k == "shmut":
            sh.values.append(op["v"])
            ctx.probe("fault:shared container changed by another thread")
            row = lst[0] if lst and isinstance(lst[0], list) and op["m"] == "row" else lst
            if op["m"] in ("append", "row"):
                row.append(op["v"])
            elif op["m"] == "pop" and row:
                row.pop()
            elif row:
                row[-1] = op["v"]
        else:
            r, ok = attempt(ctx, lambda: rp.array(lst), sh, op)
            if ok:
                a = np.asarray(r)
                allowed = [stored(np, v, a.dtype) for v in sh.values]
                for g in flat_items(np, a):
                    if not any(x is not NO and eq(g, x) for x in allowed):
                        ctx.violate("value-from-nowhere", [op, g, sh.values])

    def body(p):
        return lambda: [one(op) for op in p]
    ctx.threads([body(p) for p in case["prog"]])
    if n[0]:
        ctx.probe("nontrivial")
