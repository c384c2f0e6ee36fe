"""Shared by the generator properties: operation generation, execution, sequential twin, linearizability search."""

SEEDS = [0, 1, 42, 12345, 2 ** 32 - 1, 2 ** 32, 2 ** 63 + 17, 2 ** 64 - 1]


def _f(rng, lo, hi):
    return round(rng.uniform(lo, hi), 3)


# name -> argument generator; every one takes size=None | int | tuple
SIZED = {
    "random": lambda r: [],
    "integers": lambda r: r.choice([[10], [0, 100], [-5, 6], [0, 1], [-2 ** 40, 2 ** 40], [3, 2 ** 31], [2 ** 60 + 1, 2 ** 62 + 5], [-2 ** 63, 2 ** 63 - 1], [-2 ** 62, 2 ** 62 + 2 ** 60], [0, 2 ** 63 - 2 ** 61]]),
    "uniform": lambda r: r.choice([[], [-2.5, 4.0], [0.0, 1e6]]),
    "normal": lambda r: r.choice([[], [1.5, 2.0], [-3.0, 0.25]]),
    "standard_normal": lambda r: [],
    "exponential": lambda r: r.choice([[], [2.0], [0.3]]),
    "standard_exponential": lambda r: [],
    "beta": lambda r: [_f(r, 0.3, 4), _f(r, 0.3, 4)],
    "gamma": lambda r: [_f(r, 0.3, 4), _f(r, 0.3, 4)],
    "poisson": lambda r: [r.choice([0.5, 3.0, 40.0])],
    "binomial": lambda r: [r.choice([1, 10, 200]), _f(r, 0.1, 0.9)],
    "chisquare": lambda r: [_f(r, 0.5, 6)],
    "lognormal": lambda r: r.choice([[], [0.5, 0.7]]),
    "laplace": lambda r: r.choice([[], [1.0, 2.0]]),
    "logistic": lambda r: r.choice([[], [1.0, 2.0]]),
    "rayleigh": lambda r: r.choice([[], [2.0]]),
    "weibull": lambda r: [_f(r, 0.5, 3)],
    "geometric": lambda r: [_f(r, 0.1, 0.9)],
    "negative_binomial": lambda r: [_f(r, 1, 6), _f(r, 0.2, 0.8)],
    "hypergeometric": lambda r: [r.randrange(5, 20), r.randrange(5, 20), r.randrange(1, 10)],
    "zipf": lambda r: [_f(r, 1.5, 4)],
    "triangular": lambda r: [0.0, 1.0, 3.0],
    "vonmises": lambda r: [0.5, _f(r, 0.5, 4)],
    "pareto": lambda r: [_f(r, 1, 4)],
    "wald": lambda r: [_f(r, 0.5, 4), _f(r, 0.5, 4)],
    "standard_t": lambda r: [_f(r, 1, 9)],
    "standard_cauchy": lambda r: [],
    "standard_gamma": lambda r: [_f(r, 0.3, 4)],
}
ROWS = {
    "multivariate_normal": lambda r: [[0.0, 1.0], [[2.0, 0.3], [0.3, 1.0]]],
    "multinomial": lambda r: [r.choice([5, 20]), [0.2, 0.3, 0.5]],
    "dirichlet": lambda r: [[1.0, 2.0, 0.7]],
}
# how many raw 64-bit values one sample takes, where that is fixed
FIXED = {"random": 1, "uniform": 1}


def gen_size(rng, objs=True, big=False):
    """[kind, dims]: kind none|int|tuple|obj (an integer-like object that yields to the scheduler)."""
    k = rng.random()
    if k < 0.2:
        return ["none", []]
    if k < 0.45:
        n = rng.choice([0, 1, 2, 3, 5, 8, 17, 33])
        if big:
            n = rng.choice([64, 127, 128, 256, 1000, 1024, 1025, 4096, 5001])
        return [("obj" if objs and rng.random() < 0.5 else "int"), [n]]
    dims = [rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.9 else 7 for _ in range(rng.choice([1, 2, 2, 3]))]
    return [("tobj" if objs and rng.random() < 0.5 else "tuple"), dims]


def gen_op(rng, objs=True, names=None):
    big = rng.random() < 0.06
    if names is None:
        k = rng.random()
        if k < 0.16:
            return ["raw"]
        if k < 0.24:
            return ["rows", n := rng.choice(sorted(ROWS)), ROWS[n](rng), rng.choice([None, 1, 3])]
        if k < 0.30:
            return ["perm", rng.choice([0, 1, 2, 5, 12])]
        if k < 0.36:
            return ["permarr", rng.choice([1, 4, 9])]
        if k < 0.44:
            n = rng.choice([1, 3, 10])
            rep = rng.random() < 0.5
            sz = gen_size(rng, objs)
            tot = 1
            for d in sz[1]:
                tot *= d
            if not rep and tot > n:
                rep = True
            return ["choice", rng.choice(["int", "arr", "list"]), n, sz, rep]
        if k < 0.52:
            return ["shuffle", rng.choice(["float64"]), rng.choice([[1], [2], [7], [3, 2], [5, 3], [2, 2, 2]])]
        names = ["random", "random", "uniform"] + sorted(SIZED)
    n = rng.choice(names)
    return ["draw", n, SIZED[n](rng), gen_size(rng, objs, big)]


class Idx:
    """An integer-like size; asking for its value is a scheduling point."""

    def __init__(self, n, ctx):
        self.n, self.ctx = n, ctx

    def __index__(self):
        if self.ctx is not None:
            self.ctx.y("index")
        return self.n


def mk_size(sz, ctx):
    kind, dims = sz
    if kind == "none":
        return None
    if kind == "int":
        return dims[0]
    if kind == "obj":
        return Idx(dims[0], ctx) if ctx is not None else dims[0]
    if kind == "tuple" or ctx is None:
        return tuple(dims)
    return tuple(Idx(d, ctx) for d in dims)


def norm(np, x):
    if isinstance(x, (float, int)):
        return ["s", repr(x)]
    a = np.asarray(x)
    return ["a", a.dtype.str, list(a.shape), a.tobytes().hex() if a.size <= 64 else _h(a.tobytes())]


def _h(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()


def expected_shape(op):
    if op[0] == "draw":
        return None if op[3][0] == "none" else list(op[3][1])
    return None


def apply(rp, np, g, op, ctx=None):
    """Execute one operation; ctx None means plain sizes (no scheduling points): the sequential twin."""
    k = op[0]
    if k == "raw":
        return g.random_raw()
    if k == "draw":
        s = mk_size(op[3], ctx)
        f = getattr(g, op[1])
        return f(*op[2]) if s is None else f(*op[2], size=s)
    if k == "rows":
        f = getattr(g, op[1])
        return f(*op[2]) if op[3] is None else f(*op[2], size=op[3])
    if k == "perm":
        return g.permutation(op[1])
    if k == "permarr":
        return g.permutation(rp.arange(op[1]))
    if k == "choice":
        a = {"int": op[2], "arr": rp.arange(op[2]) * 3, "list": [float(i) * 3 for i in range(op[2])]}[op[1]]
        s = mk_size(op[3], ctx)
        return g.choice(a, replace=op[4]) if s is None else g.choice(a, size=s, replace=op[4])
    if k == "shuffle":
        n = 1
        for d in op[2]:
            n *= d
        x = rp.arange(n, dtype=op[1]).reshape(tuple(op[2]))
        g.shuffle(x)
        return x
    raise AssertionError(op)


def mk_gen(rp, np, spec):
    if spec[0] == "seed":
        return rp.random.default_rng(spec[1])
    if spec[0] == "Generator":
        return rp.random.Generator(spec[1])
    st = np.random.PCG64DXSM(spec[1]).state["state"]
    return rp.random.Generator.from_numpy_state(st["state"], st["inc"])


def gen_spec(rng):
    return [rng.choice(["seed", "seed", "Generator", "numpy", "numpy"]), rng.choice(SEEDS)]


def sequential(rp, np, spec, ops):
    g = mk_gen(rp, np, spec)
    return [norm(np, apply(rp, np, g, op)) for op in ops]


def linearize(rp, np, spec, recs, limit=3000):
    """recs: [op, inv, ret, result]. Find an order consistent with real time whose one-at-a-time execution
    gives exactly these results. Returns the order, None if there is none, or "limit"."""
    n = len(recs)
    by_ret = sorted(range(n), key=lambda i: recs[i][2])
    tries = 0

    def run(order):
        return sequential(rp, np, spec, [recs[i][0] for i in order])

    # completion order is right unless something overlaps
    got = run(by_ret)
    bad = next((j for j in range(n) if got[j] != recs[by_ret[j]][3]), None)
    if bad is None:
        return by_ret

    def dfs(order, left):
        nonlocal tries
        if not left:
            return order
        for i in sorted(left, key=lambda i: recs[i][2]):
            if any(recs[j][2] < recs[i][1] for j in left if j != i):
                continue
            tries += 1
            if tries > limit:
                return "limit"
            if run(order + [i])[-1] == recs[i][3]:
                r = dfs(order + [i], left - {i})
                if r is not None:
                    return r
        return None

    return dfs([], frozenset(range(n)))
