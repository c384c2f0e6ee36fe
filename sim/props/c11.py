"""Functions that run the caller's code: once per element, in order, with its exact value; results and exceptions arrive unchanged."""
from ..core import gen_sched, is_panic
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 20000, "thorough": 300000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least three callbacks ran; cases are distinct by their full JSON"
REAL = ["rumpy extension compiled from /repo (vectorize, frompyfunc, apply_along_axis, apply_over_axes, fromfunction, piecewise, element access)", "CPython 3.12 threads", "numpy as model"]
STUB = ["thread scheduling (baton scheduler; every callback is a scheduling point)", "callbacks (seeded results, exceptions and re-entrant calls)", "allocator layout (fenced)"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points",
          "an element may reach the callback as a float of equal value",
          "conditions given to piecewise are disjoint, so that 'first match' and 'last match' coincide"]
SHRINK = ["prog", "prog/*"]
DTS = ["float64", "float64", "float32", "int64", "int64", "int32", "int16", "uint8", "uint64", "bool", "complex128", "float16"]
REAL_DTS = ["float64", "float32", "int64", "int32", "uint64", "int16"]
EXC = ["ValueError", "KeyError", "TypeError", "OverflowError", "StopIteration", "KeyboardInterrupt", "Own", "MemoryError", "RuntimeError"]


class Own(BaseException):
    pass


def small_shape(rng, nd=None, zero=0.06):
    nd = rng.choice([1, 1, 2, 2, 3]) if nd is None else nd
    s = [rng.choice([1, 2, 2, 3, 4, 5]) for _ in range(nd)]
    if s and rng.random() < zero:
        s[rng.randrange(nd)] = 0
    return s


def sub_shape(rng, s):
    t = [d if rng.random() < 0.7 else 1 for d in s]
    return t[rng.randrange(len(t) + 1):] if rng.random() < 0.3 else t


def fill(rng):
    return rng.choice(["rand", "rand", "ramp", "small", "nan"])


def arr(rng, shape, dts=DTS):
    s = P.lay_spec(rng, shape, rng.choice(dts), fill(rng))
    return ["a", s]


def gen_call(rng):
    k = rng.choice(["vec", "vec", "vec", "fpf", "fpf", "along", "along", "over", "fromf", "piece", "piece", "sig"])
    c = {"k": k}
    c["fail"] = [rng.randrange(6), rng.choice(EXC)] if rng.random() < 0.2 else None
    c["nest"] = rng.randrange(5) if rng.random() < 0.2 else None
    c["ret"] = rng.choice(["float", "float", "int", "bigint", "bool", "mix", "arg"])
    s = small_shape(rng)
    if k in ("vec", "fpf"):
        n = rng.choice([1, 1, 2, 2, 3])
        first = rng.randrange(n)
        c["args"] = []
        for i in range(n):
            if i == first:
                c["args"].append(arr(rng, s))
            elif rng.random() < 0.25:
                c["args"].append(["v", rng.choice([2, 0.5, -7, True, 2 ** 60])])
            elif rng.random() < 0.15:
                c["args"].append(["l", [rng.randrange(-5, 9) for _ in range(s[-1])]])
            else:
                c["args"].append(arr(rng, sub_shape(rng, s)))
        if k == "vec":
            c["ot"] = rng.choice([None, None, "float64", "int64", "float32", "complex128", "bool"])
        else:
            c["nout"] = rng.choice([1, 1, 2, 3])
            c["obj"] = rng.random() < 0.5
    elif k == "along":
        c["args"] = [arr(rng, s)]
        c["axis"] = rng.randrange(-len(s), len(s))
        c["rs"] = rng.choice([None, None, [], [2], [1], [3], [2, 2], "same"])
        c["extra"] = rng.random() < 0.3
        c["as"] = rng.choice(["rp", "rp", "np", "list"])
        c["rdt"] = rng.choice(["float64", "int64", "float32", "complex128"])
    elif k == "over":
        c["args"] = [arr(rng, s, REAL_DTS)]
        c["axes"] = [rng.randrange(-len(s), len(s)) for _ in range(rng.randrange(1, 4))]
        c["keep"] = rng.random() < 0.5
    elif k == "fromf":
        c["shape"] = [d or 1 for d in s]
        c["dt"] = rng.choice([None, "float64", "int64", "float32"])
    elif k == "piece":
        c["args"] = [arr(rng, s, REAL_DTS)]
        n = rng.choice([1, 2, 3])
        c["seed"] = rng.randrange(10 ** 6)
        c["n"] = n
        c["funcs"] = [rng.choice(["f", "f", "c"]) for _ in range(n + rng.choice([0, 1]))]
        c["lay"] = rng.random() < 0.5
    elif k == "sig":
        core = rng.choice([1, 2, 3])
        outer = small_shape(rng, rng.choice([0, 1, 1, 2]))
        c["sig"] = rng.choice(["(n)->()", "(n),(n)->()", "(n),()->()", "(),(n)->()", "(m,n),(n)->()"])
        c["args"] = []
        for part in c["sig"].split("->")[0].replace(" ", "")[1:-1].split("),("):
            dims = [d for d in part.split(",") if d]
            cs = {"n": core + 1, "m": core}
            c["args"].append(arr(rng, sub_shape(rng, outer) + [cs[d] for d in dims], REAL_DTS))
    return c


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 2, 3])
    return {"knobs": {"alloc": rng.choice([1, 2, 3])}, "sched": gen_sched(rng, 150), "one": rng.random() < 0.5,
            "prog": [[gen_call(rng) for _ in range(rng.randrange(1, 4))] for _ in range(nt)]}


def size(c):
    return sum(map(len, c["prog"]))


def eq(a, b):
    if isinstance(a, bool) and isinstance(b, float) or isinstance(b, bool) and isinstance(a, float):
        return float(a) == float(b)
    if type(a) is complex or type(b) is complex:
        a, b = complex(a), complex(b)
        return eq(a.real, b.real) and eq(a.imag, b.imag)
    if a != a:
        return b != b
    return a == b


class Callback:
    """Records its arguments, lets others run, fails or calls back into rumpy when told, and hands out known results."""

    def __init__(self, ctx, c, shared):
        self.ctx, self.c, self.calls, self.out, self.exc, self.shared = ctx, c, [], [], None, shared
        self.in_nest = False

    def value(self, k):
        m = self.c["ret"]
        if m == "mix":
            m = ["int", "float", "bool"][k % 3]
        return {"float": k * 0.37 - 1.5, "int": k * 3 - 4, "bigint": 2 ** 53 + 2 * k + 1, "bool": k % 3 == 0, "arg": k + 0.25}[m]

    def enter(self, args):
        ctx, c = self.ctx, self.c
        k = len(self.calls)
        self.calls.append(args)
        ctx.y("callback")
        if c["nest"] is not None and k == c["nest"] and not self.in_nest:
            self.in_nest = True
            ctx.probe("re-entrant call")
            nest(ctx, self.shared)
            self.in_nest = False
        if c["fail"] and k == c["fail"][0]:
            e = c["fail"][1]
            self.exc = Own() if e == "Own" else getattr(__import__("builtins"), e)("raised in call %d" % k)
            ctx.probe("fault:exception raised in a callback")
            raise self.exc
        return k


def nest(ctx, shared):
    """A small call made from inside a callback, checked on its own."""
    rp, np = ctx.rp, ctx.np
    got = []

    def f(x):
        got.append(x)
        ctx.y("inner")
        return x * 2
    r = rp.vectorize(f)(rp.array([5.0, 7.0, 9.0]))
    if np.asarray(r).tolist() != [10.0, 14.0, 18.0] or got != [5.0, 7.0, 9.0]:
        ctx.violate("re-entrant-call-wrong", [got, np.asarray(r).tolist()])
    r = rp.apply_along_axis(lambda v: float(np.asarray(v)[0]), 0, rp.array([[1.0, 2.0], [3.0, 4.0]]))
    if np.asarray(r).tolist() != [1.0, 2.0]:
        ctx.violate("re-entrant-call-wrong", np.asarray(r).tolist())


def items(a):
    return [x.item() for x in a.reshape(-1)] if a.dtype.kind != "O" else list(a.reshape(-1))


def build_args(ctx, c):
    rp, np = ctx.rp, ctx.np
    hs, vs = [], []
    for a in c["args"]:
        if a[0] == "a":
            h, v = P.build(rp, np, a[1])
            hs.append(h)
            vs.append(v)
        elif a[0] in ("l", "t"):
            hs.append(list(a[1]))
            vs.append(np.array(a[1]))
        else:
            hs.append(a[1])
            vs.append(None)
    return hs, vs


def check_calls(ctx, c, cb, want, shapes=None):
    """want: expected argument tuples of the calls, in order."""
    n = len(want) if cb.exc is None else c["fail"][0] + 1
    if len(cb.calls) != n:
        ctx.violate("wrong-number-of-calls:" + c["k"], [c, "%d calls, expected %d" % (len(cb.calls), n)])
    for i, (got, exp) in enumerate(zip(cb.calls, want)):
        if len(got) != len(exp) or not all(eq(g, e) for g, e in zip(got, exp)):
            ctx.violate("wrong-arguments:" + c["k"], [c, "call %d got %r, expected %r" % (i, got, exp)])


def check_result(ctx, c, r, shape, vals, dt=None):
    np = ctx.np
    a = np.asarray(r)
    if a.shape != tuple(shape):
        ctx.violate("wrong-shape:" + c["k"], [c, a.shape, tuple(shape)])
    if dt is not None and a.dtype != np.dtype(dt):
        ctx.violate("wrong-type:" + c["k"], [c, str(a.dtype), dt])
    if dt in ("float32", "float16", "complex64"):
        vals = [np.dtype(dt).type(v).item() for v in vals]
    got = items(a)
    for i, (g, v) in enumerate(zip(got, vals)):
        if not eq(g, v):
            ctx.violate("wrong-result:" + c["k"], [c, "element %d is %r, the callback returned %r" % (i, g, v)])


def holds(np, dt, v):
    """Whether a value of this kind may be stored in the requested type without loss."""
    k = np.dtype(dt).kind
    if k == "b":
        return isinstance(v, bool)
    if k == "i":
        return isinstance(v, int)
    return not (isinstance(v, int) and abs(v) > 2 ** 53)


def one(ctx, c, shared):
    rp, np = ctx.rp, ctx.np
    k = c["k"]
    cb = Callback(ctx, c, shared)
    ctx.note("%s %s" % (k, {x: c[x] for x in c if x != "args"}))
    bad = None
    call = after = None

    if k in ("vec", "fpf"):
        hs, vs = build_args(ctx, c)
        shape = np.broadcast_shapes(*[v.shape for v in vs if v is not None])
        cols = [items(np.broadcast_to(v, shape)) if v is not None else [h] * A.prod(shape) for h, v in zip(hs, vs)]
        want = list(zip(*cols)) if A.prod(shape) else []
        if k == "vec":
            def f(*a):
                i = cb.enter(a)
                v = cb.value(i)
                if c["ot"] and not holds(np, c["ot"], v):
                    v = {"b": i % 2 == 0, "i": i - 3}.get(np.dtype(c["ot"]).kind, i * 0.5)
                cb.out.append(v)
                return v
            fn = rp.vectorize(f, otypes=[c["ot"]] if c["ot"] else None)
            if shared is not None:   # one object used by every thread: dispatch on a per-thread callback
                fn = shared["fn"]
                shared["cb"][ctx.me()] = f
                if c["ot"]:
                    c = dict(c, ot=None)

            def after(r):
                if shape == ():
                    return
                if c["ot"] is None and not all(eq(float(v), v) for v in cb.out) and len({type(v) for v in cb.out}) > 1:
                    return
                check_result(ctx, c, r, shape, cb.out, c["ot"])
        else:
            def f(*a):
                i = cb.enter(a)
                if c["obj"]:
                    v = tuple([object(), "s%d" % i, [i, i]][(i + j) % 3] for j in range(c["nout"]))
                else:
                    v = tuple(cb.value(i + j) for j in range(c["nout"]))
                cb.out.append(v)
                return v if c["nout"] > 1 else v[0]
            fn = rp.frompyfunc(f, len(hs), c["nout"])

            def after(r):
                rs = r if c["nout"] > 1 else (r,)
                if len(rs) != c["nout"]:
                    ctx.violate("wrong-number-of-results:fpf", [c, len(rs)])
                for j, x in enumerate(rs):
                    a = np.asarray(x)
                    if a.shape != shape:
                        ctx.violate("wrong-shape:fpf", [c, a.shape, shape])
                    for i, g in enumerate(list(a.reshape(-1))):
                        w = cb.out[i][j]
                        if not (g is w or (not c["obj"] and eq(g, w))):
                            ctx.violate("wrong-result:fpf", [c, "element %d is %r, the callback returned %r" % (i, g, w)])
        check = lambda: check_calls(ctx, c, cb, want)
        call = lambda: fn(*hs)

    elif k == "along":
        hs, vs = build_args(ctx, c)
        v = vs[0]
        ax = c["axis"] % v.ndim
        lanes = np.moveaxis(v, ax, -1)
        outer = lanes.shape[:-1]
        lanes = lanes.reshape((A.prod(outer), v.shape[ax])) if A.prod(outer) else []
        extra = (3, "x") if c["extra"] else ()
        kw = {"opt": 7} if c["extra"] else {}

        def f(x, *a, **q):
            i = cb.enter((np.asarray(x).copy(), a, q))
            if c["rs"] is None:
                r = cb.value(i)
                cb.out.append(r)
                return r
            rs = [v.shape[ax]] if c["rs"] == "same" else c["rs"]
            r = (np.arange(A.prod(rs)) + 10 * i).astype(c["rdt"]).reshape(rs)
            cb.out.append(r)
            if c["as"] == "rp" or rs == []:
                return rp.array(r)
            return r if c["as"] == "np" else r.tolist()

        def check():
            n = len(lanes) if cb.exc is None else c["fail"][0] + 1
            if len(cb.calls) != n:
                ctx.violate("wrong-number-of-calls:along", [c, len(cb.calls), n])
            for i, (x, a, q) in enumerate(cb.calls):
                if not A.same(np, x, np.ascontiguousarray(lanes[i])) or a != extra or q != kw:
                    ctx.violate("wrong-arguments:along", [c, "call %d got %r, expected %r" % (i, x.tolist(), lanes[i].tolist())])

        def after(r):
            if not len(lanes):
                return
            if c["rs"] is None:
                if not all(eq(float(x), x) for x in cb.out) and len({type(x) for x in cb.out}) > 1:
                    return
                return check_result(ctx, c, r, outer, cb.out)
            rs = cb.out[0].shape
            w = np.array(cb.out).reshape(outer + rs)
            w = np.transpose(w, list(range(ax)) + list(range(len(outer), len(outer) + len(rs))) + list(range(ax, len(outer))))
            a = np.asarray(r)
            if a.shape != w.shape or not (a == w).all():
                ctx.violate("wrong-result:along", [c, a.tolist(), w.tolist()])
        call = lambda: rp.apply_along_axis(f, c["axis"], hs[0], *extra, **kw)

    elif k == "over":
        hs, vs = build_args(ctx, c)
        v = vs[0]
        state = [v.shape]

        def f(x, axis):
            i = cb.enter((np.asarray(x).copy(), axis))
            want = list(state[0])
            want[axis] = 1
            r = (np.arange(A.prod(want)) * 1.5 + 100 * i).reshape(want)
            cb.out.append(r)
            state[0] = tuple(want)
            return rp.array(r if c["keep"] else np.squeeze(r, axis=axis))

        def check():
            n = len(c["axes"]) if cb.exc is None else c["fail"][0] + 1
            if len(cb.calls) != n:
                ctx.violate("wrong-number-of-calls:over", [c, len(cb.calls), n])
            for i, (x, axis) in enumerate(cb.calls):
                w = v if i == 0 else cb.out[i - 1]
                if axis != c["axes"][i] % v.ndim or not A.same(np, x, w):
                    ctx.violate("wrong-arguments:over", [c, i, axis, x.tolist(), w.tolist()])

        def after(r):
            check_result(ctx, c, r, cb.out[-1].shape, items(cb.out[-1]))
        if not c["keep"] and v.ndim == 1:
            return 0
        call = lambda: rp.apply_over_axes(f, hs[0], c["axes"])

    elif k == "fromf":
        ind = np.indices(c["shape"]).astype("f8")

        def f(*a):
            cb.enter(tuple(np.asarray(x).copy() for x in a))
            r = (np.arange(A.prod(c["shape"])) * 3 - 4).reshape(c["shape"])
            cb.out.append(r)
            return rp.array(r)

        def check():
            if len(cb.calls) != 1 or len(cb.calls[0]) != len(c["shape"]) or not all((x == y).all() and x.shape == y.shape for x, y in zip(cb.calls[0], ind)):
                ctx.violate("wrong-arguments:fromf", [c, len(cb.calls)])

        def after(r):
            check_result(ctx, c, r, c["shape"], items(cb.out[0]))
        call = lambda: rp.fromfunction(tuple(c["shape"]), f, **({"dtype": c["dt"]} if c["dt"] else {}))

    elif k == "piece":
        hs, vs = build_args(ctx, c)
        v = vs[0]
        import random
        r0 = random.Random(c["seed"])
        n = c["n"]
        owner = np.array([r0.randrange(n + 1) for _ in range(v.size)], dtype="i8").reshape(v.shape)
        conds = []
        for j in range(n):
            m = owner == j
            if c["lay"] and v.ndim >= 2:
                conds.append(rp.transpose(rp.array(np.ascontiguousarray(m.T)), tuple(reversed(range(v.ndim)))))
            else:
                conds.append(rp.array(m))
        nf = len(c["funcs"])
        is_int = v.dtype.kind in "iu"
        big = v.dtype.itemsize == 8 and is_int
        expect = np.zeros(v.shape, v.dtype).reshape(-1)
        want = []
        flat, ow = v.reshape(-1), owner.reshape(-1)
        for j in range(nf):
            for i in range(v.size):
                if ow[i] == j:
                    want.append((j, flat[i].item(), i))

        def const(j):
            return 2 ** 53 + 2 * j + 1 if big else j + 40 if is_int else j + 0.5

        def mkf(j):
            def f(x):
                a = np.asarray(x)
                i = cb.enter((j, a.reshape(-1)[0].item(), a.size))
                w = (2 ** 60 + 2 * i + 1 if big else i % 100) if is_int else i * 0.25
                pos = calls_only[i][2]
                expect[pos] = w
                return rp.array(np.array([w], dtype=v.dtype)) if i % 2 else w
            return f
        calls_only = [w for w in want if c["funcs"][w[0]] == "f"]
        for j, _, i in want:
            if c["funcs"][j] == "c":
                expect[i] = const(j)

        def check():
            check_calls(ctx, c, cb, [(j, x, 1) for j, x, _ in calls_only])

        def after(r):
            if not A.same(np, np.asarray(r), expect.reshape(v.shape)):
                ctx.violate("wrong-result:piece", [c, np.asarray(r).tolist(), expect.tolist()])
        call = lambda: rp.piecewise(hs[0], conds, [mkf(j) if t == "f" else const(j) for j, t in enumerate(c["funcs"])])

    else:
        hs, vs = build_args(ctx, c)
        cores = [len([d for d in p.split(",") if d]) for p in c["sig"].split("->")[0][1:-1].split("),(")]
        outs = [v.shape[:v.ndim - d] for v, d in zip(vs, cores)]
        shape = np.broadcast_shapes(*outs)
        bs = [np.broadcast_to(v, shape + v.shape[v.ndim - d:]) for v, d in zip(vs, cores)]

        def f(*a):
            i = cb.enter(tuple(np.asarray(x).copy() if not isinstance(x, (int, float)) else x for x in a))
            v = cb.value(i)
            cb.out.append(v)
            return v

        def check():
            n = A.prod(shape) if cb.exc is None else c["fail"][0] + 1
            if len(cb.calls) != n:
                ctx.violate("wrong-number-of-calls:sig", [c, len(cb.calls), n])
            for i, a in enumerate(cb.calls):
                idx = np.unravel_index(i, shape) if shape else ()
                for x, b in zip(a, bs):
                    w = b[idx]
                    if (not eq(x, w.item()) if w.shape == () and isinstance(x, (int, float)) else not A.same(np, x, np.ascontiguousarray(w).reshape(w.shape))):
                        ctx.violate("wrong-arguments:sig", [c, i, repr(x), w.tolist()])

        def after(r):
            if shape == ():
                if not eq(float(r), float(cb.out[0])):
                    ctx.violate("wrong-result:sig", [c, r, cb.out])
            elif len({type(v) for v in cb.out}) == 1:
                check_result(ctx, c, r, shape, cb.out)
        fn = rp.vectorize(f, signature=c["sig"])
        call = lambda: fn(*hs)

    ctx.y(k)
    try:
        r = call()
    except BaseException as e:
        from ..core import Violation
        if isinstance(e, Violation) or hasattr(e, "sim_violation"):
            raise
        if e is not cb.exc:
            ctx.violate("exception-changed:" + k if cb.exc is not None else "refused:" + k, [c, repr(e)[:300], repr(cb.exc)])
        check()
        ctx.probe("exception passed through")
        return len(cb.calls)
    if cb.exc is not None:
        ctx.violate("exception-swallowed:" + k, [c, repr(cb.exc)])
    check()
    after(r)
    return len(cb.calls)


def run(ctx, case):
    rp = ctx.rp
    import threading
    ids = {}
    ctx.me = lambda: ids.get(threading.get_ident(), 0)
    shared = None
    if case.get("one"):
        cbs = {}
        shared = {"cb": cbs, "fn": rp.vectorize(lambda *a: cbs[ctx.me()](*a))}
    n = [0]

    def body(i, p):
        def g():
            ids[threading.get_ident()] = i
            for c in p:
                n[0] += one(ctx, c, shared)
        return g
    ctx.threads([body(i, p) for i, p in enumerate(case["prog"])])
    ctx.probe("callbacks", n[0])
    if n[0] >= 3:
        ctx.probe("nontrivial")
