"""One seeded stream: concurrent histories on shared generators are linearizable, reproducible and chunking-invariant."""
from ..core import gen_sched
from . import rnglib as R

RUNS = {"quick": 14000, "thorough": 200000}
SECONDS = {"quick": 120, "thorough": 3000}
RULE = "a run counts when at least two draws happened on a shared generator or a draw was split; cases are distinct by their full JSON"
REAL = ["rumpy extension compiled from /repo (random bindings, Generator, PCG64DXSM, array construction)", "CPython 3.12 threads", "numpy as consumer"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "clock", "allocator layout (poisoned, red-zoned or fenced)", "sizes given as integer-like objects that yield to the scheduler"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points and where the extension gives up the GIL or blocks",
          "the values of distributions other than the uniform ones are judged against a one-at-a-time execution of the same code"]
SHRINK = ["prog", "prog/*", "splits"]

PARENT = {}


def prepare(env):
    for s in R.SEEDS:
        PARENT[s] = [env.rp.random.default_rng(s).random_raw(), env.rp.random.Generator(s).random_raw()]


def gen(rng, tier):
    c = {"spec": R.gen_spec(rng), "knobs": {"alloc": rng.choice([1, 1, 2, 3])},
         "clock": [rng.randrange(0, 2 ** 61) for _ in range(4)] if rng.random() < 0.5 else [5]}
    if rng.random() < 0.3:
        c["mode"] = "split"
        if rng.random() < 0.2:
            n = rng.choice(sorted(R.ROWS))
            c["op"] = ["rows", n, R.ROWS[n](rng), None]
            tot = rng.choice([2, 5, 9])
        else:
            n = rng.choice(sorted(R.SIZED))
            c["op"] = ["draw", n, R.SIZED[n](rng), None]
            tot = rng.choice([2, 3, 7, 16, 33, 100, 257, 1025, 2050, 4097]) if rng.random() < 0.97 else 70001
        cuts = sorted({rng.randrange(1, tot) for _ in range(rng.choice([1, 1, 2, 4]))})
        if rng.random() < 0.3:
            cuts = sorted(set(cuts) | {c for c in (1, 2, 1024, tot - 1) if 0 < c < tot})
        c["splits"] = [b - a for a, b in zip([0] + cuts, cuts + [tot])]
        c["pre"] = [R.gen_op(rng, objs=False) for _ in range(rng.choice([0, 0, 1, 2]))]
        return c
    c["mode"] = "threads"
    nt = rng.choice([1, 2, 2, 3, 4])
    c["ngen"] = rng.choice([1, 1, 1, 2])
    focus = None
    if rng.random() < 0.3:
        focus = [rng.choice(sorted(R.SIZED)) for _ in range(2)] + ["random"]
    if c["spec"][0] == "numpy" and rng.random() < 0.5:
        focus = ["integers", "integers", "integers", "random", "uniform"]
    c["prog"] = [[[rng.randrange(c["ngen"]), R.gen_op(rng, names=focus)] for _ in range(rng.randrange(1, 7))] for _ in range(nt)]
    c["sched"] = gen_sched(rng, 200)
    return c


def size(c):
    return sum(map(len, c["prog"])) if "prog" in c else len(c["splits"]) + 1


def total(dims):
    t = 1
    for d in dims:
        t *= d
    return t


def check_shape(ctx, op, r):
    np = ctx.np
    if op[0] == "draw":
        want = None if op[3][0] == "none" else tuple(op[3][1])
        if want is None:
            if not isinstance(r, (int, float)):
                ctx.violate("scalar-expected", [op, type(r).__name__])
        elif tuple(r.shape) != want:
            ctx.violate("wrong-shape", [op, r.shape])
    if op[0] in ("perm", "permarr", "shuffle"):
        n = op[1] if op[0] != "shuffle" else total(op[2])
        a = np.sort(np.asarray(r).ravel())
        if a.tolist() != list(range(n)):
            ctx.violate("not-a-rearrangement:" + op[0], [op, a.tolist()])
    if op[0] == "choice":
        pop = set(range(op[2])) if op[1] == "int" else {3 * i for i in range(op[2])}
        v = np.atleast_1d(np.asarray(r)).ravel().tolist()
        if any(x not in pop for x in v):
            ctx.violate("choice-outside-population", [op, v])
        if not op[4] and len(set(v)) != len(v):
            ctx.violate("choice-repeats-without-replacement", [op, v])


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    spec = case["spec"]
    if case["mode"] == "split":
        return run_split(ctx, case)
    gens = [R.mk_gen(rp, np, spec) for _ in range(case["ngen"])]
    recs = [[] for _ in gens]
    clock = [0]

    def body(t, ops):
        def f():
            for k, (gi, op) in enumerate(ops):
                ctx.y("op")
                inv = clock[0] = clock[0] + 1
                ctx.note("thread %d draws %s" % (t, op))
                try:
                    r = R.apply(rp, np, gens[gi], op, ctx)
                except BaseException as e:
                    ctx.violate("draw-failed:%s" % type(e).__name__, [op, str(e)])
                ret = clock[0] = clock[0] + 1
                check_shape(ctx, op, r)
                n = R.norm(np, r)
                ctx.log("ret %d.%d %s" % (t, k, str(n)[:120]))
                recs[gi].append([op, inv, ret, n, r])
        return f

    ctx.threads([body(t, ops) for t, ops in enumerate(case["prog"])])
    if sum(map(len, recs)) >= 2:
        ctx.probe("nontrivial")
    for gi, rs in enumerate(recs):
        if any(a[1] < b[1] < a[2] for a in rs for b in rs if a is not b):
            ctx.probe("overlapping-draws")
        order = R.linearize(rp, np, spec, rs)
        if order == "limit":
            ctx.probe("linearize-limit")
            continue
        if order is None:
            ctx.violate("not-linearizable", [[r[0], r[1], r[2], r[3]] for r in rs])
        if spec[0] == "numpy":
            numpy_stream(ctx, spec, [rs[i] for i in order])
    s = spec[1]
    if spec[0] in ("seed", "Generator"):
        now = [rp.random.default_rng(s).random_raw(), rp.random.Generator(s).random_raw()]
        if now != PARENT[s] or now[0] != now[1]:
            ctx.violate("seed-not-reproducible", [s, now, PARENT[s]])


def wide(a):
    return (a[1] - a[0] if len(a) > 1 else a[0]) > 2 ** 32


def lemire(stream, a, n):
    """n bounded integers, as NumPy takes them from 64-bit draws, and how many draws they take."""
    lo, hi = a if len(a) > 1 else (0, a[0])
    m, out, k = hi - lo, [], 0
    while len(out) < n:
        while True:
            x = int(stream[k]) * m
            k += 1
            low = x & (2 ** 64 - 1)
            if low >= m or low >= (2 ** 64 - m) % m:
                break
        out.append(lo + (x >> 64))
    return out, k


def numpy_stream(ctx, spec, rs):
    """Every raw value handed out is the next one of numpy's stream for that state."""
    np = ctx.np
    stream = np.random.PCG64DXSM(spec[1]).random_raw(60000)
    f53 = (stream >> np.uint64(11)).astype(np.float64) * (1.0 / 9007199254740992.0)
    pos, exact = 0, True
    for op, _, _, _, r in rs:
        if op[0] == "raw":
            hit = np.nonzero(stream[pos:] == np.uint64(r))[0]
            k = 1
        elif op[0] == "draw" and op[1] in ("random", "uniform"):
            v = np.atleast_1d(np.asarray(r)).ravel()
            k = v.size
            if k == 0:
                continue
            lo, hi = (op[2] or [0.0, 1.0]) if op[1] == "uniform" else (0.0, 1.0)
            ref = f53 if op[1] == "random" else lo + f53 * (hi - lo)
            ctx.probe("numpy-stream-compared")
            hit = np.nonzero(ref[pos:] == v[0])[0]
            if hit.size and ref[pos + hit[0]:pos + hit[0] + k].tolist() != v.tolist():
                ctx.violate("not-the-numpy-stream", [op, pos])
        elif op[0] == "draw" and op[1] == "integers" and exact and wide(op[2]):
            v = [int(x) for x in np.atleast_1d(np.asarray(r)).ravel()]
            ref, k = lemire(stream[pos:], op[2], len(v))
            if not v:
                continue
            ctx.probe("numpy-integers-compared")
            if ref != v:
                ctx.violate("not-the-numpy-stream", [op, pos, v[:4], ref[:4]])
            hit = np.array([0])
        else:
            exact = False
            continue
        if not hit.size or (exact and hit[0] != 0):
            ctx.violate("not-the-numpy-stream", [op, pos, exact])
        pos += int(hit[0]) + k
        exact = True


def run_split(ctx, case):
    rp, np = ctx.rp, ctx.np
    a, b = R.mk_gen(rp, np, case["spec"]), R.mk_gen(rp, np, case["spec"])
    op = case["op"]
    for p in case["pre"]:
        R.apply(rp, np, a, p)
        R.apply(rp, np, b, p)

    def draw(g, n):
        if op[0] == "rows":
            return np.asarray(getattr(g, op[1])(*op[2], size=n))
        return np.asarray(getattr(g, op[1])(*op[2], size=n))

    ctx.note("split %s %s" % (op, case["splits"]))
    try:
        parts = [draw(a, n) for n in case["splits"]]
        whole = draw(b, sum(case["splits"]))
    except BaseException as e:
        ctx.violate("draw-failed:%s" % type(e).__name__, [op, str(e)])
    ctx.probe("nontrivial")
    ctx.probe("splits")
    if np.concatenate(parts).tobytes() != whole.tobytes():
        ctx.violate("splitting-changes-the-stream:" + op[1], [case["splits"], [p.tolist() for p in parts][:3], whole.tolist()[:10]])
    ra, rb = a.random_raw(), b.random_raw()
    if ra != rb:
        ctx.violate("splitting-changes-the-position:" + op[1], [ra, rb])
