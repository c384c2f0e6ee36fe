"""Matrix products are exact sums and decompositions satisfy their defining equations, whatever the worker pool does."""
from ..core import gen_sched, is_panic
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 18000, "thorough": 300000}
SECONDS = {"quick": 200, "thorough": 3000}
RULE = "a run counts when at least one product or decomposition was checked; cases are distinct by their full JSON"
REAL = ["rumpy extension compiled from /repo (matmul, dot, inner, outer, vdot, kron, tensordot, multi_dot, matrix_power, einsum, linalg)", "faer and gemm kernels", "CPython 3.12 threads", "numpy as model"]
STUB = ["worker pool (seeded order, stealing and thread count; one operating-system thread)", "thread scheduling (baton scheduler)", "allocator (fenced, seeded fill)"]
ASSUME = ["tasks of the worker pool touch disjoint outputs, so running them in some order stands for running them at once",
          "operands of products are small multiples of 1/2, so that their sums are exact in any order",
          "decompositions are checked on matrices of known, moderate condition, with a tolerance of 1e-8 (1e-3 for float32)"]
SHRINK = ["prog", "prog/*"]
INT = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
NUM = ["float64"] * 5 + ["float32"] * 3 + ["float16", "complex128", "complex128", "complex64", "bool"] + INT
RNUM = [d for d in NUM if d[0] != "c"]
DEC = ["float64"] * 5 + ["float32", "int64", "int32", "int16", "float16"]
CPX = ["complex128", "complex64"]


def dim(rng, big):
    return rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 13, 16, 17, 33] if not big else [33, 64, 96, 97, 120])


def arr(rng, shape, dt, fill="small"):
    s = P.lay_spec(rng, shape, dt, fill, plain=0.35)
    if fill != "small":
        s.pop("bc", None)
    return ["a", s]


def batch(rng):
    full = [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]

    def sub():
        s = [d if rng.random() < 0.75 else 1 for d in full]
        return s[rng.randrange(len(s) + 1):] if rng.random() < 0.4 else s
    return sub(), sub()


def gen_call(rng):
    k = rng.choice(["matmul", "matmul", "matmul", "dot", "inner", "outer", "vdot", "kron", "tensordot", "multi_dot", "power", "einsum", "einsum",
                    "solve", "solve", "inv", "det", "slogdet", "qr", "svd", "eigh", "eig", "cholesky", "pinv", "lstsq", "rank", "norm", "cond", "trace", "tinv", "tsolve", "cross"])
    big = rng.random() < 0.06 and k in ("matmul", "dot", "inner", "solve", "inv", "qr", "det", "cholesky", "eigh", "svd")
    dt, dt2 = rng.choice(NUM), rng.choice(NUM)
    if big:
        dt = rng.choice(["float64", "float32", "complex128", "complex64"])
    if big or rng.random() < 0.6:
        dt2 = dt
    if k not in ("matmul", "dot", "inner", "outer", "multi_dot"):
        dt = rng.choice(RNUM) if dt in CPX else dt
        dt2 = rng.choice(RNUM) if dt2 in CPX else dt2
    m, n, p = dim(rng, big), dim(rng, big), dim(rng, big)
    if rng.random() < 0.05:
        m, n, p = rng.choice([(0, n, p), (m, 0, p), (m, n, 0)])
    c = {"k": k, "how": rng.choice(["rp", "rp", "op"])}
    if k == "matmul":
        b1, b2 = batch(rng) if not big else ([], [])
        s1, s2 = b1 + [m, n], b2 + [n, p]
        if rng.random() < 0.2:
            s1 = [n]
        if rng.random() < 0.2:
            s2 = [n]
        c["args"] = [arr(rng, s1, dt), arr(rng, s2, dt2)]
    elif k in ("dot", "inner"):
        if big:
            s1, s2 = [m, n], [n, p] if k == "dot" else [p, n]
        else:
            s1 = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2]))] + [n]
            s2 = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2]))] + [n]
            if k == "dot" and len(s2) > 1:
                s2[-1], s2[-2] = s2[-2], n
        c["args"] = [arr(rng, s1, dt), arr(rng, s2, dt2)]
    elif k == "outer":
        c["args"] = [arr(rng, [min(m, 9)], dt), arr(rng, [min(p, 9)], dt2)]
    elif k == "vdot":
        s = [rng.choice([1, 2, 3]), n] if rng.random() < 0.4 else [n]
        c["args"] = [arr(rng, s, dt), arr(rng, s[::-1] if rng.random() < 0.3 else s, dt2)]
    elif k == "kron":
        c["args"] = [arr(rng, [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 2, 3]))], dt), arr(rng, [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 2]))], dt2)]
    elif k == "cross":
        c["args"] = [arr(rng, [3], dt), arr(rng, [3], dt2)]
    elif k == "tensordot":
        t = rng.choice([0, 1, 1, 2])
        con = [rng.choice([1, 2, 3, 4]) for _ in range(t)]
        f1 = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]
        f2 = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]
        if not (f1 or con):
            f1 = [2]
        if not (f2 or con):
            f2 = [3]
        if rng.random() < 0.5:
            c["axes"], s1, s2 = t, f1 + con, con + f2
        else:
            o1, o2 = list(range(len(f1) + t)), list(range(len(f2) + t))
            rng.shuffle(o1)
            rng.shuffle(o2)
            a1, a2 = o1[:t], o2[:t]
            s1, s2 = [None] * len(o1), [None] * len(o2)
            for i, (x, y) in enumerate(zip(a1, a2)):
                s1[x] = s2[y] = con[i]
            for s, f in ((s1, list(f1)), (s2, list(f2))):
                for i in range(len(s)):
                    if s[i] is None:
                        s[i] = f.pop(0)
            c["axes"] = [[x - len(s1) if rng.random() < 0.3 else x for x in a1], a2]
        c["args"] = [arr(rng, s1, dt), arr(rng, s2, dt2)]
    elif k == "multi_dot":
        ds = [rng.choice([1, 2, 3, 4, 6]) for _ in range(rng.choice([3, 4, 5]))]
        c["args"] = [arr(rng, [ds[i], ds[i + 1]], dt) for i in range(len(ds) - 1)]
    elif k == "power":
        q = rng.choice([1, 2, 3, 4])
        c["args"] = [arr(rng, [q, q], rng.choice(["float64", "float32", "int64", "int32"]))]
        c["n"] = rng.choice([0, 1, 2, 3, 4, 5])
        if rng.random() < 0.5:   # signed permutations: every power is exact
            c["args"][0][1]["fill"] = "perm"
            c["args"][0][1].pop("bc", None)
            c["n"] = rng.choice([6, 7, 8, 15, 16, 31, 100, 255, 256, 1000, 65537, 2 ** 31 + 5, 2 ** 40 + 3, 2 ** 62 + 1]) * rng.choice([1, 1, -1]) + rng.choice([0, -1, -2])
    elif k == "einsum":
        sub, shapes = rng.choice([
            ("ij,jk->ik", "ij jk"), ("ij->ji", "ij"), ("ii->", "ii"), ("ii->i", "ii"), ("ij,ij->", "ij ij"), ("i,j->ij", "i j"), ("ij,j->i", "ij j"), ("ijk,ikl->ijl", "ijk ikl"),
            ("ij->", "ij"), ("ij->i", "ij"), ("ij->j", "ij"), ("ij,jk,kl->il", "ij jk kl"), ("i,i->", "i i"), ("ijk->kji", "ijk"), ("ij,kj->ik", "ij kj"), ("i,ij,j->", "i ij j"), ("ijk,jk->i", "ijk jk"),
            ("ij,jk", "ij jk"), ("ba", "ba"), ("ij,ij->ij", "ij ij"), ("i,i->i", "i i"), ("ijj->i", "ijj"), ("ij,ik->jk", "ij ik"), ("a,b,c->abc", "a b c")])
        if rng.random() < 0.5:
            terms = ["".join(rng.choice("ijkl") for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.choice([1, 2, 2, 2, 3]))]
            used = sorted(set("".join(terms)))
            rng.shuffle(used)
            sub, shapes = ",".join(terms), " ".join(terms)
            if rng.random() < 0.85:
                sub += "->" + "".join(used[:rng.randrange(len(used) + 1)])
        ds = {ch: rng.choice([1, 2, 3, 4]) for ch in "abcijkl"}
        c["sub"] = sub
        dts = rng.choice(["float64", "float64", "float32", "int64", "int32"])
        c["args"] = [arr(rng, [ds[ch] for ch in s], dts) for s in shapes.split()]
    else:
        dt = rng.choice(DEC)
        q = max(1, m)
        if big:
            dt, q = "float64", rng.choice([40, 64, 70])
        if k in ("qr", "svd", "pinv", "lstsq", "rank", "norm"):
            mm, nn = (q, q) if rng.random() < 0.4 else (max(1, m), max(1, n))
            if big:
                mm, nn = q, rng.choice([q, 20, 50])
            c["args"] = [arr(rng, [mm, nn], dt, "full")]
            if rng.random() < 0.5:
                c["args"][0][1]["shuf"] = rng.choice(["rows", "flip"])
            c["rank"] = rng.randrange(1, min(mm, nn) + 1) if k in ("pinv", "lstsq", "rank") and rng.random() < 0.5 else None
            if k == "lstsq":
                c["args"].append(arr(rng, [mm] if rng.random() < 0.5 else [mm, rng.choice([1, 2, 3])], rng.choice(["float64", "float64", "int64", "float32"])))
            if k == "norm":
                c["ord"] = rng.choice([None, "fro", "nuc"])
        else:
            c["args"] = [arr(rng, [q, q], dt, "spd" if k in ("eigh", "cholesky") else "dom")]
            if k in ("solve", "inv", "det", "slogdet", "eig", "cond") and rng.random() < 0.6:
                c["args"][0][1]["shuf"] = rng.choice(["rows", "rows", "flip"])
            if k == "solve":
                s = rng.choice([[q], [q, 1], [q, 3], [q, q]])
                c["args"].append(arr(rng, s, rng.choice(DEC)))
            if k == "tinv":
                f = rng.choice([(4, [2, 2], [4]), (6, [2, 3], [6]), (6, [6], [3, 2]), (4, [2, 2], [2, 2])])
                c["args"] = [arr(rng, [f[0], f[0]], rng.choice(["float64", "int64"]), "dom")]
                c["split"] = [f[1], f[2]]
            if k == "tsolve":
                f = rng.choice([(4, [2, 2], [4]), (6, [2, 3], [6]), (6, [6], [3, 2]), (4, [2, 2], [2, 2])])
                c["args"] = [arr(rng, [f[0], f[0]], rng.choice(["float64", "int64"]), "dom"), arr(rng, f[1], "float64")]
                c["split"] = [f[1], f[2]]
    return c


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    return {"knobs": {"alloc": rng.choice([1, 2, 3]), "pool_threads": rng.choice([1, 2, 2, 3, 4, 8, 16])}, "sched": gen_sched(rng, 60),
            "pool": [rng.randrange(256) for _ in range(rng.choice([0, 40, 120]))],
            "prog": [[gen_call(rng) for _ in range(rng.randrange(1, 5))] for _ in range(nt)]}


def size(c):
    return sum(A.prod(a[1]["shape"]) for p in c["prog"] for op in p for a in op["args"]) + 10 * sum(map(len, c["prog"]))


def matrix(np, spec, rank):
    """Values of a matrix with the wanted structure, of moderate condition."""
    import random
    r = random.Random(spec["seed"])
    d = np.dtype(spec["dtype"])
    if spec["fill"] == "perm":
        n = spec["shape"][0]
        v = np.zeros((n, n), dtype=d)
        to = list(range(n))
        r.shuffle(to)
        for i in range(n):
            v[i, to[i]] = r.choice([1, 1, -1])
        return v
    v = P.values(np, dict(spec, fill="small" if spec["fill"] == "full" else spec["fill"]))
    if spec.get("shuf") == "rows":      # as well conditioned, but in need of pivoting
        to = list(range(v.shape[0]))
        r.shuffle(to)
        v = np.ascontiguousarray(v[to])
    elif spec.get("shuf") == "flip":
        v = np.ascontiguousarray(v[::-1])
    if spec["fill"] != "full":
        return v
    m, n = spec["shape"]
    k = min(m, n)
    if rank is None:
        v = v + (np.eye(m, n) * (8 * k + 8)).astype(d)
        return v
    # rank r exactly: r dominant independent rows, the others copies of them
    base = np.array([[r.randrange(0, 3) for _ in range(n)] for _ in range(rank)], dtype="int64") + np.eye(rank, n, dtype="int64") * (2 * n + 9)
    return base[[i if i < rank else r.randrange(rank) for i in range(m)]].astype(d)


def build(ctx, a, rank=None):
    spec = a[1]
    v = matrix(ctx.np, spec, rank)
    old = P.values
    P.values = lambda np, s: v
    try:
        return P.build(ctx.rp, ctx.np, spec)[0], v
    finally:
        P.values = old


def products(ctx, c, R, V):
    rp, np = ctx.rp, ctx.np
    k = c["k"]
    op = c["how"] == "op"
    if k == "matmul":
        return (lambda: R[0] @ R[1]) if op else (lambda: rp.matmul(*R)), lambda W: np.matmul(*W)
    if k == "dot":
        return (lambda: R[0].dot(R[1])) if op and hasattr(R[0], "dot") else (lambda: rp.dot(*R)), lambda W: np.dot(*W)
    if k in ("inner", "outer", "vdot", "kron", "cross"):
        return lambda: getattr(rp, k)(*R), lambda W: getattr(np, k)(*W)
    if k == "tensordot":
        ax = c["axes"]
        return lambda: rp.tensordot(R[0], R[1], axes=ax if isinstance(ax, int) else tuple(ax)), lambda W: np.tensordot(W[0], W[1], axes=ax if isinstance(ax, int) else tuple(ax))
    if k == "multi_dot":
        def md(W):
            x = W[0]
            for y in W[1:]:
                x = x @ y
            return x
        return lambda: rp.linalg.multi_dot(R), md
    if k == "power":
        return lambda: rp.linalg.matrix_power(R[0], c["n"]), lambda W: np.linalg.matrix_power(W[0], c["n"])
    if k == "trace":
        return lambda: rp.trace(R[0]), lambda W: np.trace(W[0])
    if k == "einsum":
        return lambda: rp.einsum(c["sub"], *R), lambda W: np.einsum(c["sub"], *W)


def exact(np, W, model):
    """The product in exact arithmetic (Python numbers scaled by 4), as complex/float/int values."""
    return model(W)


def check_product(ctx, c, R, V):
    np = ctx.np
    call, model = products(ctx, c, R, V)
    what = [c["k"], c.get("sub"), c.get("axes"), c.get("n"), [[a[1]["dtype"], a[1]["shape"]] for a in c["args"]]]
    try:
        want = np.asarray(model(V))
    except Exception:
        want = None
    try:
        got = call()
    except Exception as e:
        small = all(v.ndim <= 2 for v in V)
        if want is not None and (c["k"] in ("matmul", "multi_dot") or small and c["k"] in ("dot", "inner", "outer")):
            ctx.violate("refused:" + c["k"], [what, repr(e)[:200]])
        ctx.probe("refused")
        return
    if want is None:
        return
    g = np.asarray(got)
    if g.shape != want.shape:
        ctx.violate("wrong-shape:" + c["k"], [what, g.shape, want.shape])
    # exact reference: operands are multiples of 1/2 (times 1 or i)
    wide = "complex128" if any(v.dtype.kind == "c" for v in V) else "float64" if any(v.dtype.kind == "f" for v in V) else None
    if want.dtype.kind == "b":
        ok = np.array_equal(g.astype(bool), want)
    elif wide is None:
        ref = want.astype("int64") if want.dtype.kind != "u" else want.astype("uint64").view("int64") if want.dtype == "uint64" else want.astype("int64")
        gi = g.astype("float64") if g.dtype.kind == "f" else g
        if g.dtype.kind in "iu":
            ok = np.array_equal(g.astype("uint64") & np.uint64(mask(want.dtype)), ref.astype("uint64") & np.uint64(mask(want.dtype))) if g.dtype.itemsize >= want.dtype.itemsize else False
        else:
            ref = np.asarray(model([v.astype("float64") for v in V]))   # sums in floating point do not wrap around
            ok = np.array_equal(gi[np.abs(ref) < 2 ** 50], ref[np.abs(ref) < 2 ** 50])
    else:
        ref = np.asarray(model([v.astype(wide) for v in V]))
        lim = {"float16": 60000, "float32": 2 ** 22, "complex64": 2 ** 22}.get(str(g.dtype), 2 ** 50)
        sane = np.abs(ref) < lim
        with np.errstate(all="ignore"):
            r = ref.astype(g.dtype) if g.dtype.kind in "fc" and not (ref.dtype.kind == "c" and g.dtype.kind == "f") else ref
        if g.dtype == "float16":
            ok = np.all(np.abs(g.astype(wide) - ref)[sane] <= 0.01 * (np.abs(ref)[sane] + 8))
        else:
            ok = np.array_equal(g.astype(wide)[sane], r.astype(wide)[sane]) if not (np.iscomplexobj(r) and not np.iscomplexobj(g)) else bool(np.all(r.imag == 0)) and np.array_equal(g.astype(wide), r)
    if not ok:
        ctx.violate("wrong-product:" + c["k"], [what, str(g.dtype), g.tolist() if g.size < 60 else "", want.tolist() if want.size < 60 else ""])


def mask(d):
    return 2 ** (8 * d.itemsize) - 1


def decomp(ctx, c, R, V):
    rp, np = ctx.rp, ctx.np
    la = rp.linalg
    k = c["k"]
    a = V[0].astype("complex128" if V[0].dtype.kind == "c" else "float64")
    cplx = a.dtype.kind == "c"
    N = float(np.abs(a).max() if a.size else 1) * max(a.shape) + 1
    what = [k, [[x[1]["dtype"], x[1]["shape"], x[1]["seed"]] for x in c["args"]], c.get("rank"), c.get("ord"), c.get("split")]
    tol = [1e-8]

    def arr_(x):
        x = np.asarray(x)
        if x.dtype in (np.dtype("float32"), np.dtype("complex64")):
            tol[0] = 1e-3
        if x.dtype == "float16":
            tol[0] = 3e-2
        return x.astype("complex128") if x.dtype.kind == "c" else x.astype("float64")

    def close(x, y, tag, scale=None):
        x, y = np.asarray(x), np.asarray(y)
        s = N if scale is None else scale
        if x.shape != y.shape:
            ctx.violate("wrong-shape:%s:%s" % (k, tag), [what, x.shape, y.shape])
        if x.size and not np.all(np.abs(x - y) <= tol[0] * s):
            ctx.violate("wrong:%s:%s" % (k, tag), [what, float(np.nanmax(np.abs(x - y))) if x.size else 0, s])

    try:
        if k == "solve":
            got = arr_(la.solve(R[0], R[1]) if c["how"] == "rp" else rp.solve(R[0], R[1]))
        elif k == "inv":
            got = arr_(la.inv(R[0]))
        elif k == "det":
            got = la.det(R[0])
        elif k == "slogdet":
            got = la.slogdet(R[0])
        elif k == "qr":
            got = [arr_(x) for x in la.qr(R[0])]
        elif k == "svd":
            got = [arr_(x) for x in la.svd(R[0], full_matrices=False)] + [arr_(la.svdvals(R[0]))]
        elif k == "eigh":
            got = [arr_(x) for x in la.eigh(R[0])] + [arr_(la.eigvalsh(R[0]))]
        elif k == "eig":
            got = [arr_(x) for x in la.eig(R[0])] + [arr_(la.eigvals(R[0]))]
        elif k == "cholesky":
            got = arr_(la.cholesky(R[0]))
        elif k == "pinv":
            got = arr_(la.pinv(R[0]))
        elif k == "lstsq":
            got = la.lstsq(R[0], R[1])
        elif k == "rank":
            got = la.matrix_rank(R[0])
        elif k == "norm":
            got = la.norm(R[0]) if c["ord"] is None else la.norm(R[0], c["ord"])
        elif k == "cond":
            got = la.cond(R[0])
        elif k == "tinv":
            s = c["split"]
            got = arr_(la.tensorinv(R[0].reshape(s[0] + s[1]), ind=len(s[0])))
        elif k == "tsolve":
            s = c["split"]
            got = arr_(la.tensorsolve(R[0].reshape(s[0] + s[1]), R[1]))
    except Exception as e:
        ctx.violate("refused:" + k, [what, repr(e)[:200]])
    I = np.eye(a.shape[0])
    if k == "solve":
        b = V[1].astype("complex128" if V[1].dtype.kind == "c" else "float64")
        if got.shape != b.shape:
            ctx.violate("wrong-shape:solve", [what, got.shape])
        close(a @ got, b, "residual", N + float(np.abs(b).max() if b.size else 0))
    elif k == "inv":
        close(a @ got, I, "product")
    elif k == "det":
        w = np.linalg.det(a)
        close(got, w, "value", abs(w) * (1 if tol[0] else 1) + 1e-300)
    elif k == "slogdet":
        s, l = np.linalg.slogdet(a)
        close(got[0], s, "sign", 1)
        close(got[1], l, "log", abs(l) + 1)
    elif k == "qr":
        q, r = got
        m, n = a.shape
        if q.shape != (m, min(m, n)) or r.shape != (min(m, n), n):
            ctx.violate("wrong-shape:qr", [what, q.shape, r.shape])
        close(q @ r, a, "product")
        close(np.conj(q.T) @ q, np.eye(min(m, n)), "orthogonal", 10)
        close(np.tril(r, -1), np.zeros_like(r), "triangular")
    elif k == "svd":
        u, s, vt, sv = got
        m, n = a.shape
        q = min(m, n)
        if u.shape != (m, q) or s.shape != (q,) or vt.shape != (q, n):
            ctx.violate("wrong-shape:svd", [what, u.shape, s.shape, vt.shape])
        close((u * s) @ vt, a, "product")
        close(np.conj(u.T) @ u, np.eye(q), "orthogonal-u", 10)
        close(vt @ np.conj(vt.T), np.eye(q), "orthogonal-v", 10)
        if np.any(s < 0) or np.any(np.diff(s) > tol[0] * N):
            ctx.violate("wrong:svd:order", [what, s.tolist()])
        close(sv, s, "svdvals")
    elif k == "eigh":
        w, v, wv = got
        close(a @ v, v * w, "equation")
        close(np.conj(v.T) @ v, I, "orthogonal", 10)
        if np.any(np.diff(w) < -tol[0] * N):
            ctx.violate("wrong:eigh:order", [what, w.tolist()])
        close(wv, w, "eigvalsh")
    elif k == "eig":
        w, v, wv = got
        n = a.shape[0]
        if w.shape != (n,) or v.shape != (n, n) or wv.shape != (n,):
            ctx.violate("wrong-shape:eig", [what])
        gap = np.abs(w[:, None] - w[None, :]) + np.eye(n) * N
        ok = gap.min(axis=1) > 1e-3 * N          # (nearly) repeated eigenvalues may lack independent vectors
        u = v / (np.linalg.norm(v, axis=0) + (~ok))
        if ok.any():
            close((a @ u)[:, ok], (u * w)[:, ok], "equation", 1e3 * N)
            close(np.linalg.norm(u[:, ok], axis=0), np.ones(int(ok.sum())), "nonzero", 10)
        if ok.all():
            close(np.sort_complex(np.round(wv, 4)), np.sort_complex(np.round(np.linalg.eigvals(a), 4)), "eigvals", 1e5 * N)
        close(np.sum(w), np.trace(a), "trace", 10 * N)
    elif k == "cholesky":
        close(got @ np.conj(got.T), a, "product")
        close(np.triu(got, 1), np.zeros_like(got), "triangular")
        if np.any(np.diag(got).real <= 0):
            ctx.violate("wrong:cholesky:sign", [what])
    elif k == "pinv":
        close(a @ got @ a, a, "aga", N * 10)
        close(got @ a @ got, got, "gag", N)
        close(np.conj((a @ got).T), a @ got, "symmetric-ag")
        close(np.conj((got @ a).T), got @ a, "symmetric-ga")
    elif k == "lstsq":
        x = arr_(got[0])
        b = V[1].astype("float64")
        nb = N * (N + float(np.abs(b).max() if b.size else 0)) * 10
        w, _, rk, s = np.linalg.lstsq(a, b, rcond=None)
        close(a.T @ (a @ x - b), np.zeros((a.shape[1],) + b.shape[1:]), "normal-equations", nb)
        close(x, w, "minimum-norm", nb)
        if got[2] != rk:
            ctx.violate("wrong:lstsq:rank", [what, got[2], rk])
        close(arr_(got[3]), s, "singular-values")
    elif k == "rank":
        w = c["rank"] if c.get("rank") else min(a.shape)
        if got != w:
            ctx.violate("wrong:rank", [what, got, w])
    elif k == "norm":
        w = np.linalg.norm(a) if c["ord"] is None else np.linalg.norm(a, c["ord"])
        close(got, w, "value", abs(w) + 1)
    elif k == "cond":
        w = np.linalg.cond(a)
        close(got, w, "value", abs(w) + 1)
    elif k == "tinv":
        s = c["split"]
        w = np.linalg.tensorinv(a.reshape(s[0] + s[1]), ind=len(s[0]))
        close(got, w, "value", 10)
    elif k == "tsolve":
        s = c["split"]
        w = np.linalg.tensorsolve(a.reshape(s[0] + s[1]), V[1].astype("float64"))
        close(got, w, "value", N)


PRODUCTS = {"matmul", "dot", "inner", "outer", "vdot", "kron", "cross", "tensordot", "multi_dot", "power", "trace", "einsum"}


def run(ctx, case):
    done = [0]

    def one(c):
        ctx.note("%s" % (c,))
        ctx.y("build")
        RV = [build(ctx, a, c.get("rank") if i == 0 else None) for i, a in enumerate(c["args"])]
        R, V = [x[0] for x in RV], [x[1] for x in RV]
        ctx.y(c["k"])
        try:
            with ctx.np.errstate(all="ignore"):
                (check_product if c["k"] in PRODUCTS else decomp)(ctx, c, R, V)
        except BaseException as e:
            if is_panic(e):
                ctx.violate("panic:" + c["k"], [c, repr(e)[:300]])
            raise
        ctx.y("after")
        for r, v in zip(R, V):
            if not A.same(ctx.np, ctx.np.asarray(r), v):
                ctx.violate("operand-changed:" + c["k"], [c])
        done[0] += 1
        if done[0] == 1:
            ctx.probe("nontrivial")

    def body(p):
        return lambda: [one(c) for c in p]
    ctx.threads([body(p) for p in case["prog"]])
    ctx.heap_ok()
