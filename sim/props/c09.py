"""A draw that fails is an ordinary exception that takes nothing from the stream and leaves the generator working."""
from ..core import gen_sched, is_panic
from . import rnglib as R

RUNS = {"quick": 14000, "thorough": 200000}
SECONDS = {"quick": 120, "thorough": 3000}
RULE = "a run counts when at least one faulty, raising or re-entrant call was made on a generator that was used again afterwards"
REAL = ["rumpy extension compiled from /repo (random bindings, Generator, PCG64DXSM, lock handling)", "CPython 3.12 threads"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "lock waits (futex seam with deadlock detection)", "size objects that raise, yield or draw re-entrantly"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points and where the extension gives up the GIL or blocks",
          "requests refused for lack of memory are not injected here"]
SHRINK = ["prog", "prog/*"]

BAD = {
    "normal": [[0.0, -1.0]], "exponential": [[-1.0]], "beta": [[-1.0, 2.0], [2.0, 0.0], [float("nan"), 1.0]],
    "gamma": [[-1.0, 1.0], [1.0, -2.0]], "poisson": [[-1.0], [float("nan")]], "binomial": [[10, 1.5], [10, -0.1]],
    "chisquare": [[-1.0], [0.0]], "lognormal": [[0.0, -1.0]], "weibull": [[-1.0]], "geometric": [[1.5], [-0.5], [0.0]],
    "negative_binomial": [[-1.0, 0.5], [2.0, 1.5], [2.0, 0.0], [2.0, -1.0]], "hypergeometric": [[3, 4, 10], [0, 0, 1], [2 ** 63, 2 ** 63, 1]],
    "zipf": [[0.5], [-3.0]], "triangular": [[3.0, 1.0, 0.0]], "pareto": [[-1.0], [0.0]], "wald": [[-1.0, 1.0], [1.0, -1.0]],
    "standard_t": [[-1.0], [0.0]], "standard_gamma": [[-1.0]],
    "integers": [[5, 5], [5, 1], [-3], [0], [-2 ** 63, 2 ** 63 - 1]], "rayleigh": [[-1.0]], "laplace": [[0.0, -1.0]],
    "multinomial": [[5, [0.9, 0.9]], [5, []], [5, [-0.5, 1.5]]], "dirichlet": [[[1.0, -1.0]], [[0.0, 1.0]], [[]]],
    "multivariate_normal": [[[0.0, 1.0], [[1.0]]], [[0.0, 1.0], [[1.0, 2.0], [0.5]]], [[0.0], []]],
}
# a range wider than half the integers is legal for numpy; here only "no crash, ordinary outcome" is asked
BADSIZE = [2 ** 62, [2 ** 40, 2 ** 40], [2 ** 33, 2 ** 32], -1, "x", 1.5, [2, -1], {"a": 1}, 2 ** 70, [-3], [1, "y"], [[1, 2], 3]]


def gen_bad(rng):
    k = rng.random()
    if k < 0.45:
        n = rng.choice(sorted(BAD))
        sz = None if rng.random() < 0.3 else rng.choice([1, 3])
        return ["bad", n, rng.choice(BAD[n]), sz]
    if k < 0.6:
        n = rng.choice(sorted(R.SIZED))
        return ["badsize", n, R.SIZED[n](rng), rng.choice(BADSIZE)]
    if k < 0.75:
        n = rng.choice(sorted(R.SIZED))
        dims = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))]
        return ["raise", n, R.SIZED[n](rng), dims, rng.randrange(len(dims)), rng.choice(["ValueError", "KeyError", "KeyboardInterrupt", "Own"])]
    if k < 0.9:
        n = rng.choice(sorted(R.SIZED))
        return ["reenter", n, R.SIZED[n](rng), rng.randrange(1, 4), R.gen_op(rng, objs=False), rng.random() < 0.5]
    return ["odd", rng.choice(["choice0", "choice-empty", "choice-many", "choice-str", "choice-raise", "perm-neg", "perm-str", "perm-raise",
                               "shuffle-list", "shuffle-0d", "perm-0d", "choice-reenter", "perm-reenter"])]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    c = {"spec": R.gen_spec(rng), "knobs": {"alloc": rng.choice([1, 1, 2, 3])}, "sched": gen_sched(rng, 150)}
    c["prog"] = []
    for _ in range(nt):
        p = []
        for _ in range(rng.randrange(1, 6)):
            p.append(gen_bad(rng) if rng.random() < 0.5 else R.gen_op(rng))
        p.append(["raw"])
        c["prog"].append(p)
    return c


def size(c):
    return sum(map(len, c["prog"]))


class Own(Exception):
    pass


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    g = R.mk_gen(rp, np, case["spec"])
    recs, clock = [], [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def good(op):
        inv = tick()
        try:
            r = R.apply(rp, np, g, op, ctx)
        except BaseException as e:
            ctx.violate("good-draw-failed:%s" % type(e).__name__, [op, str(e)])
        recs.append([op, inv, tick(), R.norm(np, r)])

    class Boom:
        def __init__(self, e):
            self.e = e

        def __index__(self):
            ctx.y("raise")
            raise self.e

    class Re:
        """draws from the same generator while its value is being asked for"""

        def __init__(self, n, op):
            self.n, self.op, self.done = n, op, False

        def __index__(self):
            ctx.y("reenter")
            if not self.done:
                self.done = True
                good(self.op)
            return self.n

    def attempt(what, f):
        """a call allowed to fail: it may raise an ordinary exception; returns (ok, value)"""
        try:
            return True, f()
        except BaseException as e:
            if ctx.viol:
                raise
            if is_panic(e):
                ctx.violate("panic", [what, str(e)])
            ctx.probe("fault:refused draw")
            return False, e

    def bad(op):
        k = op[0]
        inv = tick()
        if k == "bad":
            _, n, args, sz = op
            ok, r = attempt(op, lambda: getattr(g, n)(*args) if sz is None else getattr(g, n)(*args, size=sz))
            if ok:
                ctx.probe("lenient:" + n)
                rec = ["rows", n, args, sz] if n in R.ROWS else ["draw", n, args, ["none", []] if sz is None else ["int", [sz]]]
                recs.append([rec, inv, tick(), R.norm(np, r)])
        elif k == "badsize":
            _, n, args, sz = op
            sz = tuple(sz) if isinstance(sz, list) else sz
            ok, r = attempt(op, lambda: getattr(g, n)(*args, size=sz))
            if ok:
                ctx.violate("bad-size-accepted", [op, str(r)[:200]])
        elif k == "raise":
            _, n, args, dims, at, exc = op
            e = {"ValueError": ValueError, "KeyError": KeyError, "KeyboardInterrupt": KeyboardInterrupt, "Own": Own}[exc]("injected")
            d = tuple(Boom(e) if j == at else x for j, x in enumerate(dims))
            ok, r = attempt(op, lambda: getattr(g, n)(*args, size=d if len(d) > 1 else d[0]))
            if ok:
                ctx.violate("raising-size-accepted", [op])
            ctx.probe("fault:size object raised")
        elif k == "reenter":
            _, n, args, m, inner, tup = op
            o = Re(m, inner)
            try:
                r = getattr(g, n)(*args, size=(o, 2) if tup else o)
            except BaseException as e:
                if ctx.viol:
                    raise
                ctx.violate("reentrant-draw-failed:%s" % type(e).__name__, [op, str(e)])
            ctx.probe("fault:re-entrant draw")
            recs.append([["draw", n, args, ["tuple", [m, 2]] if tup else ["int", [m]]], inv, tick(), R.norm(np, r)])
        else:
            odd(op[1], inv)

    def odd(w, inv):
        x0 = rp.arange(5).sum()
        o = Re(4, ["raw"])
        f = {
            "choice0": lambda: g.choice(0), "choice-empty": lambda: g.choice(rp.zeros(0), size=2),
            "choice-many": lambda: g.choice(3, size=5, replace=False), "choice-str": lambda: g.choice("abc"),
            "choice-raise": lambda: g.choice(Boom(Own("a")), size=2), "perm-neg": lambda: g.permutation(-1),
            "perm-str": lambda: g.permutation("ab"), "perm-raise": lambda: g.permutation(Boom(Own("p"))),
            "shuffle-list": lambda: g.shuffle([1, 2, 3]), "shuffle-0d": lambda: g.shuffle(rp.array(3.0)),
            "perm-0d": lambda: g.permutation(rp.array(3.0)),
            "choice-reenter": lambda: g.choice(o, size=3), "perm-reenter": lambda: g.permutation(o),
        }[w]
        ok, r = attempt(w, f)
        if w in ("choice-reenter", "perm-reenter"):
            if not ok:
                ctx.violate("reentrant-draw-failed:%s" % type(r).__name__, [w, str(r)])
            recs.append([["choice", "int", 4, ["int", [3]], True] if w[0] == "c" else ["perm", 4], inv, tick(), R.norm(np, r)])
        elif ok and w not in ("perm-0d", "shuffle-0d"):
            ctx.violate("bad-request-accepted", [w, str(r)[:200]])

    def body(t, ops):
        def f():
            for op in ops:
                ctx.y("op")
                ctx.note("thread %d: %s" % (t, op))
                if op[0] in ("bad", "badsize", "raise", "reenter", "odd"):
                    ctx.probe("nontrivial")
                    ctx.probe("kind:" + op[0])
                    bad(op)
                else:
                    good(op)
                ctx.log("t%d %s %d" % (t, op[0], len(recs)))
        return f

    ctx.threads([body(t, ops) for t, ops in enumerate(case["prog"])])
    order = R.linearize(rp, np, case["spec"], recs)
    if order == "limit":
        ctx.probe("linearize-limit")
    elif order is None:
        ctx.violate("failed-draw-moved-the-stream", [r[:3] for r in recs])
