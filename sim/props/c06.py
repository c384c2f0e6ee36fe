"""Memory lives exactly as long as something refers to it: no use after free, no leak, in any drop order."""
import gc
import random
import sys

from ..core import gen_sched, is_panic
from . import arrlib as A
from . import memlib as M
from . import apilib as P

RUNS = {"quick": 9000, "thorough": 200000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least one owner was dropped while something derived from it was still used"
REAL = ["rumpy extension compiled from /repo (buffers, views, iterators, exports, imports, resize)", "CPython 3.12 reference counting and threads", "numpy 2.3 as holder of exported memory"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "the allocator the extension uses (every block fenced, freed blocks made inaccessible, live bytes counted)"]
ASSUME = ["one GIL; the extension frees memory only from Python-visible drops", "memory the extension keeps for itself once (caches) is charged to a warm-up round of the same program"]
SHRINK = ["prog", "prog/*"]
KINDS = ["view"] * 5 + ["reshape", "ravel", "same", "split", "export", "export", "export", "import", "import", "copy", "fancy", "diagonal"]
KEPT = 2048  # what one program may leave behind for good (an entry of some cache), however often it runs
ITERS = ["flat", "enum", "mv", "base", "tup", "iface"]


def gen(rng, tier):
    import numpy as np
    nt = rng.choice([1, 1, 2, 2, 3])
    c = {"knobs": {"alloc": rng.choice([1, 2, 2, 2, 3])}, "sched": gen_sched(rng, 200)}
    big = rng.choice([60, 60, 60, 60, 700, 700, 9000, 40000])
    c["init"] = [gen_new(rng, np, big) for _ in range(rng.choice([1, 2]))]
    prog = []
    for _ in range(nt):
        p = []
        for _ in range(rng.randrange(4, 14)):
            x = rng.random()
            i, s = rng.randrange(1000), rng.randrange(10 ** 6)
            if x < 0.33:
                p.append([rng.choice(KINDS), i, s])
            elif x < 0.48:
                p.append(["hold:" + rng.choice(ITERS), i, s])
            elif x < 0.66:
                p.append(["drop", i, s])
            elif x < 0.72:
                p.append(["unhold", i, s])
            elif x < 0.82:
                p.append(["use", i, s])
            elif x < 0.88:
                p.append([rng.choice(["set", "fill", "assign", "sort"]), i, s])
            elif x < 0.92:
                p.append(["resize", i, s])
            elif x < 0.94:
                p.append(["fail", i, s])
            elif x < 0.97:
                p.append(["call", i, s, P.gen_call(rng, fills=("small", "nan", "rand"), big=rng.choice([0, 0.1]), hostile=rng.choice([0, 0.3]))])
            else:
                p.append(gen_new(rng, np, big))
        prog.append(p)
    c["prog"] = prog
    return c


def gen_new(rng, np, big):
    """A new array: small, or (buffers of every size class must be released) a large one of an odd size."""
    if big <= 60 or rng.random() < 0.4:
        return M.gen_new(rng, np, M.DTS, chain=rng.choice([0, 0, 1]))
    n = rng.randrange(big // 3, big)
    shape = rng.choice([[n], [n], [max(1, n // 40), 40], [3, n // 3]])
    return ["new", 0, 0, {"dtype": rng.choice(M.NUM), "shape": shape, "seed": rng.randrange(10 ** 6), "fill": "ramp", "chain": []}]


def size(c):
    return sum(map(len, c["prog"]))


class Holder:
    """Something other than an array handle that must keep the memory alive."""

    def __init__(self, kind, obj, n, pos=0):
        self.kind, self.obj, self.n, self.pos = kind, obj, n, pos


class W(M.World):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.hold = []

    def root(self, n):
        while n.base is not None and isinstance(n.base, self.np.ndarray):
            n = n.base
        return n

    def op_hold(self, h, rng, o, kind):
        np, rp = self.np, self.rp
        d = h.n.dtype
        num = d.kind in "biuf" and not (d.kind in "iu" and d.itemsize == 8)
        if len(self.hold) > 8:
            return
        if kind == "flat" and not h.exp and num:
            self.hold.append(Holder("flat", iter(h.r.flat), h.n))
        elif kind == "enum" and not h.exp and num:
            self.hold.append(Holder("enum", iter(rp.ndenumerate(h.r)), h.n))
        elif kind == "mv" and d.kind in "biuf" and h.n.size:
            e = h.r if h.exp else np.asarray(h.r)
            self.hold.append(Holder("mv", memoryview(e), h.n))
        elif kind == "base" and not h.exp:
            b = h.r.base
            if b is not None and not isinstance(b, np.ndarray):
                self.hold.append(Holder("arr", b, h.n if np.asarray(b).shape == h.n.shape else None))
        elif kind == "tup" and not h.exp and h.n.ndim and h.n.size:
            k = rng.randrange(1, 4)
            parts = rp.array_split(h.r, k)
            j = rng.randrange(len(parts))
            self.hold.append(Holder("arr", parts[j], np.array_split(h.n, k)[j]))
        elif kind == "iface" and not h.exp:
            # a consumer that reads the interface of a temporary view
            if h.n.ndim and h.n.shape[0]:
                e = np.asarray(h.r[0:1])
                self.hold.append(Holder("np", e, h.n[0:1]))

    def op_unhold(self, h, rng, o):
        if self.hold:
            self.hold.pop(rng.randrange(len(self.hold)))

    def use(self, t):
        np, ctx = self.np, self.ctx
        if t.kind in ("flat", "enum"):
            try:
                v = next(t.obj)
            except StopIteration:
                if t.pos < t.n.size:
                    ctx.violate("iterator-ended-early", [t.kind, t.pos, t.n.size])
                return
            if t.pos >= t.n.size:
                ctx.violate("iterator-ran-over", [t.kind, t.pos, t.n.size])
            idx = np.unravel_index(t.pos, t.n.shape) if t.n.ndim else ()
            e = float(t.n[idx])
            t.pos += 1
            if t.kind == "enum":
                v = v[1]
            if not (v == e or (v != v and e != e)):
                ctx.violate("held-memory-changed", [t.kind, v, e])
        elif t.kind == "mv":
            a = np.asarray(t.obj)
            if a.shape == t.n.shape and not A.same(np, a, t.n):
                ctx.violate("held-memory-changed", [t.kind, A.brief(np, a), A.brief(np, t.n)])
        elif t.n is not None:
            a = np.asarray(t.obj)
            if not A.same(np, a, t.n):
                ctx.violate("held-memory-changed", [t.kind, A.brief(np, a), A.brief(np, t.n)])

    def op_use(self, h, rng, o):
        if self.hold:
            self.use(self.hold[rng.randrange(len(self.hold))])

    def op_resize(self, h, rng, o):
        np = self.np
        if h.exp:
            return
        shape = tuple(rng.randrange(0, 5) for _ in range(rng.choice([1, 2])))
        mine = self.root(h.n)
        shared = any(x is not h and self.root(x.n) is mine and np.asarray(x.r).size and h.n.size and np.may_share_memory(np.asarray(x.r), np.asarray(h.r)) for x in self.H) \
            or any(t.n is not None and self.root(t.n) is mine for t in self.hold)
        old = h.n
        try:
            h.r.resize(*shape)
        except ValueError:
            self.ctx.probe("fault:resize refused")
            return
        if shared and old.size:
            self.ctx.violate("resized-while-shared", [A.brief(np, old), shape])
        new = np.zeros(A.prod(shape), dtype=old.dtype)
        flat = old.reshape(-1)
        m = min(flat.size, new.size)
        new[:m] = flat[:m]
        h.n, h.ro = new.reshape(shape), False

    def op_fail(self, h, rng, o):
        """A call that must fail; the handles stay as they are and nothing leaks."""
        rp, np = self.rp, self.np
        if h.exp:
            return
        k = rng.randrange(6)
        try:
            if k == 0:
                h.r.reshape(7919, 3)
            elif k == 1:
                h.r[10 ** 6]
            elif k == 2:
                rp.concatenate([h.r, rp.zeros((2, 3, 1, 5, 1))])
            elif k == 3:
                h.r.astype("nonsense")
            elif k == 4:
                rp.broadcast_to(h.r, (0, 0, 7919))
            else:
                rp.array([[1, 2], [3, object()]])
        except Exception:
            self.ctx.probe("fault:call refused")
        except BaseException as e:
            if self.ctx.viol or not is_panic(e):
                raise

    def call(self, c):
        """Any call on operands of its own, accepted or refused: nothing of it may stay behind."""
        rp, np = self.rp, self.np
        reg = []
        try:
            f = P.resolve(rp, np, c[0])
            args = [P.mk_arg(rp, np, a, False, reg) for a in c[1]]
            kws = {k: P.mk_arg(rp, np, v, False, reg) for k, v in c[2].items()}
            self.ctx.note("call " + P.describe(np, c))
            objs = args + list(kws.values())
            rc = [sys.getrefcount(x) for x in objs]
            r = f(*args, **kws)
            if not hasattr(r, "__array_interface__") and not isinstance(r, (list, tuple, dict)):
                now = [sys.getrefcount(x) for x in objs]
                if now != rc and r is not None and not any(r is x for x in objs):
                    self.ctx.violate("reference-kept", [c[0], rc, now])
            if hasattr(r, "__array_interface__") and len(self.hold) <= 8:
                self.hold.append(Holder("arr", r, None))
            self.ctx.probe("calls accepted")
        except Exception:
            self.ctx.probe("fault:call refused")
        except BaseException as e:
            if self.ctx.viol or not is_panic(e):
                raise

    def op(self, o):
        if o[0] == "call":
            return self.call(o[3])
        if o[0].startswith("hold:"):
            h = self.pick(o[1])
            if h is not None:
                self.op_hold(h, random.Random(o[2]), o, o[0][5:])
            return
        super().op(o)

    def check(self, where):
        super().check(where)
        L = self.ctx.L
        for h in self.H:
            a = h.r if h.exp else self.np.asarray(h.r)
            if a.size and h.exp:
                lo, hi = self.np.lib.array_utils.byte_bounds(a)
                if L.sim_in_live_block(lo, hi - lo) == 1:
                    self.ctx.violate("export-outlives-its-memory", [where, h.tag])


def one_round(ctx, case):
    w = W(ctx)
    for o in case["init"]:
        w.op(o)
    did = [0]

    def body(p):
        def f():
            for o in p:
                ctx.y(o[0])
                ctx.note(str(o[:3]))
                n = len(w.H)
                try:
                    w.op(o)
                except M.Boom:
                    ctx.probe("fault:conversion raised")
                if o[0] == "drop" and n > 1:
                    did[0] = 1
                w.check(o[0])
        return f
    ctx.threads([body(p) for p in case["prog"]])
    w.check("end")
    for t in w.hold:
        w.use(t)
    # the order in which the survivors go is part of the case
    r = random.Random(len(case["sched"]) + size(case))
    while w.H or w.hold:
        if w.hold and (not w.H or r.random() < 0.5):
            w.hold.pop(r.randrange(len(w.hold)))
        else:
            w.H.pop(r.randrange(len(w.H)))
        w.check("teardown")
        for t in w.hold:
            if t.kind not in ("flat", "enum"):
                w.use(t)
    return did[0]


def run(ctx, case):
    L = ctx.L
    marks = []
    did = 0
    gc.collect()
    start = L.sim_live_bytes()
    for _ in range(3):
        b = bytes(x & 255 for x in case['sched'])
        L.sim_sched_set(b, len(b))
        did |= one_round(ctx, case)
        gc.collect()
        ctx.heap_ok()
        marks.append((L.sim_live_bytes(), L.sim_live_blocks()))
    if marks[0][0] > start + KEPT:
        ctx.violate("memory-kept", "live bytes before %d, live bytes and blocks after equal rounds: %s" % (start, marks))
    if marks[2] > marks[1]:
        ctx.violate("memory-leak", "live bytes and blocks after equal rounds: %s" % (marks,))
    if did:
        ctx.probe("nontrivial")
