"""Iterators and element access: every element once, in order, with its exact current value, also for shared iterators."""
import math

from ..core import gen_sched, is_panic
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 32000, "thorough": 400000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least three elements were read; cases are distinct by their full JSON"
REAL = ["rumpy extension compiled from /repo (flat, ndenumerate, ndindex, iteration, indexing, item, tolist, int, float, len)", "CPython 3.12 threads"]
STUB = ["thread scheduling (baton scheduler)", "allocator (fenced)"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points"]
SHRINK = ["prog", "prog/*"]
DTS = A.DT_STORE + ["float64", "int64", "uint64", "complex128", "int64"]
KINDS = ["flat", "flat", "enum", "enum", "iter", "ndindex"]


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 4])
    na = rng.choice([1, 1, 2, 3])
    arrs = []
    for _ in range(na):
        dt = rng.choice(DTS)
        sh = A.gen_shape(rng, rng.choice([6, 12, 40]))
        s = P.lay_spec(rng, sh, dt, "rand")
        s.pop("bc", None)
        arrs.append(s)
    its = [[rng.choice(KINDS), rng.randrange(na)] for _ in range(rng.choice([1, 1, 2, 3, 4]))]

    def op():
        k = rng.random()
        if k < 0.45:
            return ["next", rng.randrange(len(its)), rng.choice([1, 1, 2, 3, 8, 60])]
        if k < 0.55:
            return ["new", rng.randrange(len(its))]
        if k < 0.63:
            return ["write", rng.randrange(na), rng.randrange(1000), rng.randrange(-100, 100)]
        if k < 0.72:
            return ["flat", rng.randrange(na), rng.randrange(-50, 50)]
        if k < 0.8:
            return ["list", rng.randrange(na)]
        if k < 0.88:
            return ["get", rng.randrange(na), rng.randrange(1000), rng.choice(["item", "int", "float", "tolist", "np"])]
        if k < 0.94:
            return ["for", rng.randrange(na)]
        if k < 0.97:
            return ["len", rng.randrange(na)]
        return ["drop", rng.randrange(na)]
    return {"knobs": {"alloc": rng.choice([1, 2, 3])}, "sched": gen_sched(rng, 200), "arrs": arrs, "its": its,
            "prog": [[op() for _ in range(rng.randrange(2, 9))] for _ in range(nt)]}


def size(c):
    return sum(map(len, c["prog"])) + sum(A.prod(s["shape"]) for s in c["arrs"])


def eq(a, b):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) is type(b) and a == b
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return eq(a.real, b.real) and eq(a.imag, b.imag)
    if a != a:
        return b != b
    return a == b and (not isinstance(a, float) or not isinstance(b, float) or a != 0 or math.copysign(1, a) == math.copysign(1, b))


class It:
    def __init__(self, kind, obj, m, shape):
        self.kind, self.obj, self.m, self.shape, self.pos = kind, obj, m, shape, 0
        self.n = shape[0] if kind == "iter" and shape else A.prod(shape) if kind != "iter" else 0


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    R, M = [], []
    for s in case["arrs"]:
        r, v = P.build(rp, np, s)
        R.append(r)
        m = np.array(v)
        M.append(m.view("int64") if m.dtype.kind in "Mm" else m)
    its = {}
    read = [0]

    def new(i):
        kind, a = case["its"][i]
        if R[a] is None:
            return
        if kind == "iter" and not M[a].shape:
            kind = "flat"
        o = {"flat": lambda: R[a].flat, "enum": lambda: rp.ndenumerate(R[a]), "iter": lambda: iter(R[a]),
             "ndindex": lambda: rp.ndindex(*M[a].shape) if i % 2 else rp.ndindex(tuple(M[a].shape))}[kind]()
        its[i] = It(kind, o, M[a], M[a].shape)

    def same_elem(got, m, idx, what):
        want = m[idx].item()
        if not eq(got, want):
            ctx.violate("wrong-value:" + what, [case["arrs"], list(idx), got, want])
        read[0] += 1

    def step(it):
        """One next() on a possibly shared iterator: the deliveries of all threads together are positions 0, 1, 2, ..."""
        p = it.pos
        idx = tuple(int(x) for x in np.unravel_index(p, it.shape)) if p < it.n and it.kind != "iter" else (p,)
        try:
            got = next(it.obj)
        except StopIteration:
            if p < it.n:
                ctx.violate("ended-early:" + it.kind, [p, it.n, it.shape])
            return False
        if p >= it.n:
            ctx.violate("delivered-too-much:" + it.kind, [p, it.n, it.shape, got])
        it.pos += 1
        if it.kind == "flat":
            same_elem(got, it.m, idx, "flat")
        elif it.kind == "enum":
            if tuple(got[0]) != idx:
                ctx.violate("wrong-index:enum", [tuple(got[0]), idx, it.shape])
            same_elem(got[1], it.m, idx, "enum")
        elif it.kind == "ndindex":
            if tuple(got) != idx:
                ctx.violate("wrong-index:ndindex", [tuple(got), idx, it.shape])
            read[0] += 1
        else:
            same_arr(got, it.m[p], "iter")
        return True

    def same_arr(got, want, what):
        g = np.asarray(got)
        g = g.view("int64") if g.dtype.kind in "Mm" else g
        w = np.asarray(want, dtype=want.dtype) if want.dtype.kind not in "US" else np.asarray(want, dtype=g.dtype)
        if g.shape != w.shape or g.dtype != w.dtype or not A.same(np, g, w):
            ctx.violate("wrong-value:" + what, [case["arrs"], g.tolist(), w.tolist()])
        read[0] += 1

    def flatten(x):
        return [z for y in x for z in flatten(y)] if isinstance(x, list) else [x]

    def shape_of(x):
        return (len(x),) + (shape_of(x[0]) if x else ()) if isinstance(x, list) else ()

    def one(op):
        k = op[0]
        ctx.note("%s" % (op,))
        if k == "new":
            new(op[1])
            return
        if k == "next":
            if op[1] not in its:
                new(op[1])
            it = its.get(op[1])
            if it is None:
                return
            for _ in range(op[2]):
                ctx.y("next")
                if not step(it):
                    ctx.probe("exhausted")
                    break
            return
        ctx.y(k)
        a, m = R[op[1]], M[op[1]]
        if a is None:
            return
        n = m.size
        if k == "drop":
            R[op[1]] = None
            ctx.probe("fault:array dropped while iterators live")
        elif k == "write":
            if not n or m.dtype.kind not in "iufcb" or case["arrs"][op[1]]["dtype"][:2] in ("da", "ti"):
                return
            idx = tuple(int(x) for x in np.unravel_index(op[2] % n, m.shape))
            v = abs(op[3]) if m.dtype.kind == "u" else op[3]
            a[idx if len(idx) > 1 else idx[0]] = v
            m[idx] = v
            ctx.probe("written during iteration")
        elif k == "flat":
            i = op[2]
            try:
                got = a.flat[i]
            except IndexError:
                if -n <= i < n:
                    ctx.violate("refused:flat", [i, n])
                return
            if not -n <= i < n:
                ctx.violate("out-of-range-accepted:flat", [i, n, got])
            same_elem(got, m, tuple(int(x) for x in np.unravel_index(i % n, m.shape)), "flat[]")
        elif k == "list":
            got = a.tolist()
            want = m.tolist()
            if shape_of(got) != shape_of(want) or not all(eq(g, w) for g, w in zip(flatten(got), flatten(want))):
                ctx.violate("wrong-value:tolist", [case["arrs"][op[1]], got, want])
            read[0] += n
        elif k == "for":
            if not m.shape:
                return
            c = 0
            for x in a:
                if c >= len(m):
                    ctx.violate("delivered-too-much:for", [c, m.shape])
                same_arr(x, m[c], "for")
                c += 1
                ctx.y("for")
            if c != len(m):
                ctx.violate("ended-early:for", [c, m.shape])
        elif k == "len":
            if len(a.flat) != n:
                ctx.violate("wrong-length", [len(a.flat), n])
        elif k == "get":
            if not n:
                return
            idx = tuple(int(x) for x in np.unravel_index(op[2] % n, m.shape))
            e = a[idx if len(idx) > 1 else idx[0]]
            w = m[idx].item()
            h = op[3]
            if not hasattr(e, "item"):
                if not eq(e, w):
                    ctx.violate("wrong-value:index", [case["arrs"][op[1]], list(idx), e, w])
                h = None
            elif h == "np":
                same_arr(e, m[idx], "index")
                return
            if h in ("item", "tolist"):
                g = getattr(e, h)()
                while isinstance(g, list) and len(g) == 1:
                    g = g[0]
                if not eq(g, w):
                    ctx.violate("wrong-value:" + h, [case["arrs"][op[1]], list(idx), g, w])
            elif h and m.dtype.kind in "iufb" and w == w and not (isinstance(w, float) and math.isinf(w)):
                g = int(e) if h == "int" else float(e)
                if g != (int(w) if h == "int" else float(w)):
                    ctx.violate("wrong-value:" + h, [case["arrs"][op[1]], list(idx), g, w])
            read[0] += 1

    def guarded(op):
        try:
            one(op)
        except BaseException as e:
            if is_panic(e):
                ctx.violate("panic", [op, repr(e)[:300]])
            raise

    def body(p):
        return lambda: [guarded(op) for op in p]
    try:
        ctx.threads([body(p) for p in case["prog"]])
        # whatever is left is still delivered, exactly once, and then the iterators stay exhausted
        for it in its.values():
            while step(it):
                pass
            if it.pos != it.n:
                ctx.violate("elements-missing", [it.kind, it.pos, it.n])
            for _ in range(2):
                step(it)
    finally:
        if read[0] >= 3:
            ctx.probe("nontrivial")
    its.clear()
    R.clear()
    ctx.heap_ok()
