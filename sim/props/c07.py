"""Computing never alters operands, and results are independent of operands and of each other."""
from ..core import gen_sched, is_panic
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 20000, "thorough": 400000}
SECONDS = {"quick": 240, "thorough": 3000}
RULE = "a run counts when at least one call returned an array and every operand, result and surrounding buffer was compared with its snapshot"
REAL = ["rumpy extension compiled from /repo (every computing function, method and operator of the module)", "CPython 3.12 threads", "numpy 2.3 for reading buffers"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "the allocator the extension uses (seeded placement and fences)", "the rayon worker pool (simulated, seeded steals)"]
ASSUME = ["functions documented in NumPy to return a view where possible are allowed to share memory with their operand; every other function is not"]
SHRINK = ["prog", "prog/*", "shared"]
NOTE_SIG = True
OOM_OK = True

VIEWS = set("""asarray ravel squeeze atleast_1d atleast_2d atleast_3d reshape transpose permute_dims matrix_transpose moveaxis rollaxis swapaxes
flip fliplr flipud rot90 expand_dims diagonal diag broadcast_to broadcast_arrays split hsplit vsplit dsplit array_split unstack real imag real_if_close
ascontiguousarray asfortranarray trim_zeros nd.ravel nd.squeeze nd.transpose nd.diagonal nd.swapaxes np.asarray nd.conj conj conjugate
einsum meshgrid ix_ fft.fftshift_ nd.reshape require x.T x.realimag""".split())
VIEWS -= {"fft.fftshift_"}
CHAIN = ["op.__add__", "op.__sub__", "op.__mul__", "op.__truediv__", "op.__pow__", "op.__mod__", "op.__floordiv__"]


def big_call(rng):
    """Operators on arrays past the size from which temporaries may be reused."""
    n = rng.choice([32768, 32769, 40000])
    dt = rng.choice(["float64", "float64", "float32", "int64", "int32", "complex128"])
    sh = [n] if rng.random() < 0.6 else [2, n // 2]

    def arr(s, d):
        return ["a", P.lay_spec(rng, s, d, "pos", plain=0.8)]
    b = arr(sh, rng.choice([dt, dt, dt, "float64", "int32"])) if rng.random() < 0.7 else rng.choice([["v", 2.0], arr([1] * (len(sh) - 1) + [sh[-1]], dt), ["same", 0]])
    return [rng.choice(CHAIN[:4] if dt[0] == "c" else CHAIN), [arr(sh, dt), b], {}]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2])
    hostile = rng.choice([0, 0, 0.1, 0.3])
    shared = [P.lay_spec(rng, A.gen_shape(rng, 60), rng.choice(P.NUM), rng.choice(["small", "pos", "nan"])) for _ in range(rng.choice([0, 1, 2]))]
    bign = rng.random() < 0.06

    def call():
        if bign and rng.random() < 0.7:
            c = big_call(rng)
        else:
            c = P.gen_call(rng, fills=("small", "pos", "nan"), big=rng.choice([0, 0.1]), hostile=hostile)
        args = c[1]
        own = [i for i, a in enumerate(args) if a[0] == "a"]
        if own and shared and rng.random() < 0.3:
            args[rng.choice(own)] = ["sh", rng.randrange(len(shared))]
        elif len(own) > 1 and rng.random() < 0.15:
            args[own[1]] = ["same", 0]
        return c + [rng.choice(["hold", "hold", "drop", "export"])]
    return {"knobs": {"alloc": rng.choice([1, 2, 3]), "pool_threads": rng.choice([1, 2, 4])}, "sched": gen_sched(rng, 60),
            "pool": [rng.randrange(256) for _ in range(rng.choice([0, 40]))], "shared": shared,
            "prog": [[call() for _ in range(rng.randrange(1, 5))] for _ in range(nt)]}


def size(c):
    return sum(map(len, c["prog"]))


def span(np, h):
    i = h.__array_interface__
    ptr = i["data"][0]
    sh = i["shape"]
    item = np.dtype(i["typestr"]).itemsize
    if 0 in sh or not item:
        return None
    st = i.get("strides")
    if st is None:
        return ptr, ptr + item * A.prod(sh)
    lo = hi = ptr
    for n, s in zip(sh, st):
        if s > 0:
            hi += (n - 1) * s
        else:
            lo += (n - 1) * s
    return lo, hi + item


def overlaps(a, b):
    return a and b and a[0] < b[1] and b[0] < a[1]


class Kept:
    """Everything that must stay as it is: (what, handle, bytes)."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, what, h, raw=None):
        self.items.append((what, h, self.raw(h) if raw is None else raw))

    def raw(self, h):
        return self.ctx.np.asarray(h).tobytes()

    def check(self, call):
        for what, h, b in self.items:
            if self.raw(h) != b:
                self.ctx.violate("%s-altered:%s" % (what.split(" ")[0], call[0]), ["%s altered by %s" % (what, P.describe(self.ctx.np, call)), b[:64].hex(), self.raw(h)[:64].hex()])


def one(ctx, call, kept, shared):
    rp, np = ctx.rp, ctx.np
    f = P.resolve(rp, np, call[0])
    what = P.describe(np, call)
    ctx.note(what)
    reg, keep = [], []

    def mk(a):
        if a[0] == "sh":
            h = shared[a[1] % len(shared)]
            reg.append((h, None))
            return h
        return P.mk_arg(rp, np, a, False, reg, keep)
    args = [mk(a) for a in call[1]]
    kws = {k: mk(v) for k, v in call[2].items()}
    local = Kept(ctx)
    for i, (h, _) in enumerate(reg):
        local.add("operand %d" % i, h)
    for h, raw in keep:
        local.add("buffer", h, raw)
    spans = [(h, span(np, h)) for h, _ in reg]
    mode = call[3]
    if mode != "hold":   # the operands' own handles die with the call; memory stays visible through the base or a numpy export
        if mode == "export":
            local.items = [(w, np.asarray(h), b) for w, h, b in local.items]
        else:
            local.items = [x for x in local.items if x[0] == "buffer"]
            spans = [(None, s) for _, s in spans] if local.items else []
        reg.clear()
        keep.clear()
        ctx.probe("operand handles dropped during the call")
    del mk
    if mode != "hold":
        spans = [(None, s) for _, s in spans]
    ctx.y(call[0])
    try:
        if mode == "hold":
            r = f(*args, **kws)
        else:
            r = f(*[args.pop(0) for _ in range(len(args))], **kws)
            kws = None
        ok = True
    except Exception as e:
        r, ok = type(e).__name__, False
    except BaseException as e:
        if not is_panic(e):
            raise
        r, ok = "panic", False
    local.check(call)
    kept.check(call)
    if not ok:
        ctx.probe("call failed")
        return 0
    res = [h for h in P.arrays_in(r, np) if not isinstance(h, np.generic)]
    if call[0] not in VIEWS:
        for k, h in enumerate(res):
            s = span(np, h)
            for i, (_, t) in enumerate(spans):
                if overlaps(s, t):
                    ctx.violate("result-aliases-operand:%s" % call[0], ["%s: result %d shares memory with operand %d" % (what, k, i)])
            for w, o, _ in kept.items:
                if w.startswith("result") and overlaps(s, span(np, o)):
                    ctx.violate("result-aliases-result:%s" % call[0], ["%s: result %d shares memory with an earlier %s" % (what, k, w)])
            for j in range(k):
                if overlaps(s, span(np, res[j])):
                    ctx.violate("result-aliases-result:%s" % call[0], ["%s: results %d and %d share memory" % (what, j, k)])
    # writing into a fresh result reaches nothing else
    for k, h in enumerate(res):
        if call[0] in VIEWS:
            break
        a = np.asarray(h)
        if a.flags.writeable and a.size and a.dtype.kind not in "OV":
            b = a.reshape(-1)[:1].copy() if a.flags.c_contiguous else None
            if b is not None:
                a.reshape(-1).view("u1")[:] ^= 0x15 if a.dtype.kind != "b" else 1
                local.check(call)
                kept.check(call)
    if call[0] not in VIEWS:
        for k, h in enumerate(res):
            kept.add("result of %s" % call[0], h)
    return len(res)


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    done = [0]
    shared, kept = [], Kept(ctx)
    for s in case["shared"]:
        keep = []
        h, _ = P.build(rp, np, s, keep=keep)
        shared.append(h)
        kept.add("shared operand", h)
        for b, raw in keep:
            kept.add("buffer", b, raw)

    def body(p):
        def g():
            for call in p:
                if any(a[0] == "sh" for a in call[1]) and not shared:
                    continue
                done[0] += one(ctx, call, kept, shared)
        return g
    ctx.threads([body(p) for p in case["prog"]])
    kept.check(["end", [], {}])
    if done[0]:
        ctx.probe("nontrivial")
        ctx.probe("results held", done[0])
    if case["knobs"]["pool_threads"] > 1:
        ctx.probe("fault:worker pool reordered")
