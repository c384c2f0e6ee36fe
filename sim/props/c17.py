"""A result depends only on operand values: not on layout, address, stale memory, repetition or other threads."""
from ..core import gen_sched, is_panic
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 20000, "thorough": 400000}
SECONDS = {"quick": 200, "thorough": 3000}
RULE = "a run counts when at least one call returned a result for operands in a non-trivial layout"
REAL = ["rumpy extension compiled from /repo (every computing function, method and operator of the module)", "CPython 3.12 threads", "numpy 2.3 for exporting operands and results"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "the allocator the extension uses (placement, fences and the stale contents of fresh memory are seeded)",
        "the rayon worker pool (simulated, seeded steals)"]
ASSUME = ["floating-point results may differ in rounding between layouts: compared within a tolerance scaled to the element type; integer, boolean, date and text results exactly"]
SHRINK = ["prog", "prog/*"]
NOTE_SIG = True
OOM_OK = True


def gen(rng, tier):
    nt = rng.choice([1, 1, 1, 2])
    fills = rng.choice([("small",), ("small",), ("small", "nan"), ("pos",)])
    return {"knobs": {"alloc": rng.choice([1, 2, 3]), "pool_threads": rng.choice([1, 2, 4])}, "sched": gen_sched(rng, 60),
            "pool": [rng.randrange(256) for _ in range(rng.choice([0, 40]))],
            "prog": [[P.gen_call(rng, fills=fills, big=rng.choice([0, 0.1, 0.4])) for _ in range(rng.randrange(1, 4))] for _ in range(nt)]}


def size(c):
    return sum(map(len, c["prog"]))


def attempt(ctx, f, args, kws):
    try:
        return "ok", f(*args, **kws)
    except Exception as e:
        return "exc", type(e).__name__
    except BaseException as e:
        if not is_panic(e):
            raise
        return "exc", "panic"


def one(ctx, call):
    rp, np, L = ctx.rp, ctx.np, ctx.L
    f = P.resolve(rp, np, call[0])
    what = P.describe(np, call)
    ctx.note(what)
    outs = []
    for plain, stale in ((False, 0xA7), (False, 0x3C), (True, 0xF1)):
        reg = []
        args = [P.mk_arg(rp, np, a, plain, reg) for a in call[1]]
        kws = {k: P.mk_arg(rp, np, v, plain, reg) for k, v in call[2].items()}
        ctx.y(call[0])
        L.sim_alloc_stale(stale)
        st, r = attempt(ctx, f, args, kws)
        L.sim_alloc_stale(0xA7)
        if st == "ok" and call[0] in ("empty", "empty_like"):
            r = None
        if st == "ok":
            r = P.flat(np, r)
        outs.append((st, r))
        ctx.heap_ok()
    (s0, r0), (s1, r1), (s2, r2) = outs
    if s0 != s1 or (s0 == "exc" and r0 != r1):
        ctx.violate("repeated-call-differs:%s" % call[0], [what, str(outs[0])[:300], str(outs[1])[:300]])
    if s0 != s2 or (s0 == "exc" and r0 != r2):
        ctx.violate("layout-decides-outcome:%s" % call[0], [what, str(outs[0])[:300], str(outs[2])[:300]])
    if s0 == "exc":
        ctx.probe("call refused")
        return False
    d = cmp(np, r0, r1, True)
    if d:
        ctx.violate("repeated-call-differs:%s" % call[0], [what, d])
    if call[0] in ("strides", "ascontiguousarray", "np.asarray", "shares_memory", "may_share_memory", "op.__repr__"):
        return True
    if call[0] in ("partition", "argpartition", "nd.argpartition"):
        r0, r2 = [[pivot(np, x, call) for x in r] for r in (r0, r2)]
    if call[0] == "nd.dumps":
        import pickle
        r0, r2 = [P.flat(np, pickle.loads(r[0][1])) for r in (r0, r2)]
    d = cmp(np, r0, r2, False, low(call))
    if d:
        ctx.violate("layout-changes-result:%s" % call[0], [what, d])
    return True


def pivot(np, leaf, call):
    """Of a partition only the element at kth, and which elements lie before and after it, is defined."""
    if leaf[0] != "arr":
        return leaf
    kth = call[1][1][1]
    v = leaf[1]
    ax = call[1][2][1] if len(call[1]) > 2 else call[2].get("axis", ["v", -1])[1]
    x = P.values(np, call[1][0][1])
    if isinstance(ax, int) and -x.ndim <= ax < x.ndim and v.shape == x.shape:
        v, x = np.moveaxis(v, ax, -1), np.moveaxis(x, ax, -1)
    if "arg" in call[0]:
        v = np.take_along_axis(x, v, -1) if v.ndim == x.ndim else x.ravel()[v]
    if not 0 <= kth < v.shape[-1]:
        return leaf
    return ("arr", np.concatenate([np.sort(v[..., :kth], -1), v[..., kth:kth + 1], np.sort(v[..., kth + 1:], -1)], -1))


def low(x):
    """Smallest float width among the operands: scalar results carry its rounding."""
    m = 8
    if isinstance(x, (list, tuple)):
        for y in x:
            m = min(m, low(y))
    elif isinstance(x, dict):
        for y in x.values():
            m = min(m, low(y))
    elif isinstance(x, str):
        m = {"float16": 2, "float32": 4, "complex64": 4, "f2": 2, "f4": 4, "c8": 4}.get(x, 8)
    return m


def cmp(np, a, b, exact, width=8):
    if len(a) != len(b):
        return "%d parts against %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if not P.leaf_same(np, x, y, exact, width):
            def s(z):
                return A.brief(np, z[1], 10) if z[0] == "arr" else repr(z[1])[:120]
            return "part %d: %s against %s" % (i, s(x), s(y))
    return None


def run(ctx, case):
    done = [0]

    def body(p):
        def g():
            for call in p:
                if one(ctx, call):
                    done[0] += 1
        return g
    ctx.threads([body(p) for p in case["prog"]])
    if done[0]:
        ctx.probe("nontrivial")
        ctx.probe("calls compared", done[0])
    if case["knobs"]["pool_threads"] > 1:
        ctx.probe("fault:worker pool reordered")
