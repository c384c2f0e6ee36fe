"""What one caller computes is unaffected by what other threads, nested calls and failed calls do."""
import copy
import os
import pickle
import signal

from ..core import gen_sched, is_panic, Violation
from . import apilib as P
from . import arrlib as A
from . import iolib as IO
from . import rnglib as RN

RUNS = {"quick": 8000, "thorough": 200000}
SECONDS = {"quick": 200, "thorough": 3000}
RULE = "a run counts when two or more callers made at least three calls each, or a nested call was made; cases are distinct by their full JSON"
REAL = ["rumpy extension compiled from /repo (computing functions, generators, persistence, callbacks, conversions, linear algebra)", "CPython 3.12 threads", "the file system under the scratch directory"]
STUB = ["thread scheduling (baton scheduler; callbacks and conversions are scheduling points)", "worker pool (seeded)", "allocator (fenced, seeded stale contents)"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points", "callers share operands only for reading"]
SHRINK = ["prog", "prog/*"]
OOM_OK = True
NOTE_SIG = True
SKIP = {"empty", "empty_like"}


class Own(BaseException):
    pass


DTS = ["float64", "float32", "int64", "int32", "int16", "uint8", "bool", "complex128"]


def sibling(rng, call):
    """The same call with one thing changed: what a result kept under too coarse a key would be wrong for."""
    c = copy.deepcopy(call)
    arrs, vals, strs = [], [], []

    def walk(a):
        if a[0] == "a":
            arrs.append(a)
        elif a[0] in ("l", "t"):
            for x in a[1]:
                walk(x)
        elif a[0] == "v" and isinstance(a[1], str):
            strs.append(a)
        elif a[0] == "v" and isinstance(a[1], (int, float)) and not isinstance(a[1], bool):
            vals.append(a)
    for a in list(c[1]) + list(c[2].values()):
        walk(a)
    k = rng.random()
    if strs and k < 0.5:
        a = rng.choice(strs)
        letters = sorted(set(x for x in a[1] if x.isalpha()))
        if "->" in a[1] and rng.random() < 0.5:
            l, r = a[1].split("->")
            r = list(r)
            rng.shuffle(r)
            a[1] = l + "->" + "".join(r)
        elif letters:
            to = letters[:]
            rng.shuffle(to)
            m = dict(zip(letters, to))
            a[1] = "".join(m.get(x, x) for x in a[1])
    elif vals and k < 0.6:
        a = rng.choice(vals)
        a[1] = a[1] + rng.choice([1, -1, 2])
    elif c[2] and k < 0.68:
        c[2].pop(rng.choice(sorted(c[2])))
    elif arrs:
        s = rng.choice(arrs)[1]
        j = rng.random()
        if j < 0.3:
            if "seed" in s:
                s["seed"] = rng.randrange(10 ** 6)
            else:
                s["dtype"] = rng.choice(DTS)
        elif j < 0.6:
            o = P.lay_spec(rng, list(s["shape"]), s["dtype"], s["fill"])
            s.clear()
            s.update(o)
        elif j < 0.8:
            o = P.lay_spec(rng, list(s["shape"]), rng.choice(DTS), s["fill"])
            s.clear()
            s.update(o)
        else:
            o = P.lay_spec(rng, list(s["shape"])[::-1], s["dtype"], s["fill"])
            s.clear()
            s.update(o)
    return c


def _texty():
    return sorted(n for n, sigs in P.TABLE.items() if n not in SKIP and any("->" in a or a in ("mode", "order", "kind", "side") or (a.startswith("=") and not a[1:].lstrip("-").isdigit()) for g in sigs for a in g))


def gen_op(rng, pool, deep=0, theme=None):
    k = rng.random()
    if k < 0.45:
        if pool and rng.random() < 0.45:
            c = rng.choice(pool)
            if rng.random() < 0.55:
                c = sibling(rng, c)
                pool.append(c)
            return ["call", c]
        while True:
            c = P.gen_call(rng, rng.choice(theme) if theme else None, fills=rng.choice([("small",), ("small", "nan"), ("pos",)]), big=rng.choice([0, 0, 0.2]), hostile=rng.choice([0, 0, 0.5]))
            if c[0] not in SKIP:
                break
        pool.append(c)
        return ["call", c]
    if k < 0.55:
        return ["rng", RN.gen_spec(rng), [RN.gen_op(rng, True) for _ in range(rng.randrange(1, 5))]]
    if k < 0.65:
        s = P.lay_spec(rng, A.gen_shape(rng, 30), rng.choice(["float64", "int64", "float32", "complex128", "uint8"]), "rand")
        return ["io", rng.choice(["npy", "npz", "npzc", "raw", "pickle", "txt", "txt"]), s]
    if k < 0.8 and deep < 2:
        return ["cb", [rng.randrange(1, 4), rng.randrange(1, 4)], rng.choice(["float64", "int64"]), rng.randrange(10 ** 6), rng.choice([None, None, 2]), gen_op(rng, pool, deep + 1, theme) if rng.random() < 0.8 else None,
                rng.choice(["vectorize", "frompyfunc", "along", "fromfunction"])]
    if k < 0.9:
        return ["conv", [rng.randrange(-9, 9) for _ in range(rng.randrange(1, 5))], gen_op(rng, pool, deep + 1, theme) if deep < 2 and rng.random() < 0.5 else None, rng.choice([None, None, None, 1])]
    return ["mine", rng.randrange(4), rng.randrange(-9, 9), rng.choice(["set", "sort", "fill", "sum", "repr"])]


THEMES = [_texty()]


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    pool = []
    theme = None
    if rng.random() < 0.35:
        theme = [rng.choice(THEMES[0] if rng.random() < 0.3 else P.NAMES) for _ in range(rng.choice([1, 1, 2]))]
        theme = [n for n in theme if n not in SKIP] or None
    prog = [[gen_op(rng, pool, 0, theme) for _ in range(rng.randrange(1, 7))] for _ in range(nt)]
    fresh = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        i = rng.randrange(nt)
        fresh.append([i, rng.randrange(len(prog[i])) if rng.random() < 0.4 else len(prog[i]) - 1])
    return {"fresh": fresh, "knobs": {"alloc": rng.choice([1, 2, 3]), "pool_threads": rng.choice([1, 2, 4, 8])}, "sched": gen_sched(rng, 200),
            "pool": [rng.randrange(256) for _ in range(rng.choice([0, 40]))], "share": rng.random() < 0.6,
            "prog": prog}


def size(c):
    return sum(map(len, c["prog"]))


class World:
    """One caller's private objects."""

    def __init__(self, ctx, case, tag, memo):
        self.ctx, self.case, self.tag, self.memo, self.n = ctx, case, tag, memo, 0
        self.mine = ctx.rp.arange(6, dtype="float64") * 1.0
        self.log = []

    def args(self, call):
        rp, np = self.ctx.rp, self.ctx.np
        key = repr(call)
        if self.memo is not None and key in self.memo:
            return self.memo[key]
        reg = []
        r = ([P.mk_arg(rp, np, a, False, reg) for a in call[1]], {k: P.mk_arg(rp, np, v, False, reg) for k, v in call[2].items()})
        if self.memo is not None:
            self.memo[key] = r
        return r

    def do(self, op):
        """-> comparable outcome of one operation."""
        ctx, np = self.ctx, self.ctx.np
        self.n += 1
        ctx.y(op[0])
        try:
            return ["ok", self.do_(op)]
        except (Violation, P.OperandRefused):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return ["exc", "panic" if is_panic(e) else type(e).__name__]

    def do_(self, op):
        ctx, rp, np = self.ctx, self.ctx.rp, self.ctx.np
        k = op[0]
        if k == "call":
            a, kw = self.args(op[1])
            ctx.note(P.describe(np, op[1]))
            return P.flat(np, P.resolve(rp, np, op[1][0])(*a, **kw))
        ctx.note("%s" % (op,))
        if k == "rng":
            g = RN.mk_gen(rp, np, op[1])
            return [("val", repr(RN.norm(np, RN.apply(rp, np, g, o, ctx)))) for o in op[2]]
        if k == "io":
            path = ctx.path("%s-%d%s" % (self.tag, self.n, IO.ext(op[1]) if op[1] != "txt" else ".txt"))
            a, v = P.build(rp, np, op[2])
            if op[1] == "txt":
                rp.savetxt(path, a)
                ctx.y("between")
                return P.flat(np, rp.loadtxt(path))
            IO.write(rp, np, op[1], path, [a], ["a"], 1)
            ctx.y("between")
            return [x for _, r in IO.read(rp, np, op[1], path, op[2]["dtype"]) for x in P.flat(np, r)]
        if k == "cb":
            return self.callback(op)
        if k == "conv":
            log = []

            class Num:
                def __init__(s, v):
                    s.v = v

                def __float__(s):
                    ctx.y("conv")
                    if op[3] is not None and len(log) >= op[3]:
                        raise KeyError("conv")
                    if op[2]:
                        log.append(self.do(op[2]))
                    else:
                        log.append(0)
                    return s.v + 0.25
            r = P.flat(np, rp.array([Num(v) for v in op[1]]))
            return r + [("val", repr(x)[:4000]) for x in log]
        if k == "mine":
            m = self.mine
            if op[3] == "set":
                m[op[1]] = op[2]
            elif op[3] == "fill":
                m[op[1]:op[1] + 2].fill(op[2])
            elif op[3] == "sort":
                m.sort()
            elif op[3] == "repr":
                return [("val", repr(m))]
            else:
                return [("val", m.sum())]
            return P.flat(np, m)
        raise AssertionError(op)

    def callback(self, op):
        ctx, rp, np = self.ctx, self.ctx.rp, self.ctx.np
        _, shape, dt, seed, fail, inner, how = op
        calls, log = [0], []

        def f(*a):
            calls[0] += 1
            ctx.y("callback")
            if fail is not None and calls[0] > fail:
                raise Own()
            if inner:
                ctx.probe("nested call")
                log.append(self.do(inner))
            x = a[0]
            return float(np.asarray(x).ravel()[0]) * 2 + 0.5
        a = rp.arange(shape[0] * shape[1], dtype=dt).reshape(tuple(shape))
        if how == "vectorize":
            r = rp.vectorize(f)(a)
        elif how == "frompyfunc":
            r = rp.frompyfunc(f, 1, 1)(a)
        elif how == "along":
            r = rp.apply_along_axis(f, seed % 2, a)
        else:
            r = rp.fromfunction(f, (shape[0],))
        return P.flat(np, r) + [("val", repr(x)[:4000]) for x in log]


def same(np, a, b):
    if a[0] != b[0]:
        return "%s against %s" % (str(a)[:200], str(b)[:200])
    if a[0] == "exc":
        return None if a[1] == b[1] else "%s against %s" % (a[1], b[1])
    if len(a[1]) != len(b[1]):
        return "%d parts against %d" % (len(a[1]), len(b[1]))
    for x, y in zip(a[1], b[1]):
        if x[0] == y[0] == "arr" and x[1].dtype.kind == "O":
            x, y = ("val", repr(x[1].tolist())), ("val", repr(y[1].tolist()))
        if not P.leaf_same(np, x, y, True):
            def s(z):
                return A.brief(np, z[1], 10) if z[0] == "arr" else repr(z[1])[:200]
            return "%s against %s" % (s(x), s(y))
    return None


def in_fresh(ctx, case, op, tag):
    """The outcome of the operation as the first one of a process, or None when that process died or cannot say."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            world = World(ctx, case, tag, None)
            got = []
            ctx.threads([lambda: got.append(world.do(op))])
            data = pickle.dumps(got[0])
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        return pickle.loads(b"".join(buf))
    except Exception:
        return None


def run(ctx, case):
    np = ctx.np
    progs = case["prog"]

    def phase(tag, together, memo):
        ws = [World(ctx, case, "%s%d" % (tag, i), memo) for i in range(len(progs))]

        def body(i):
            def g():
                for op in progs[i]:
                    ws[i].log.append(ws[i].do(op))
            return g
        if together:
            ctx.threads([body(i) for i in range(len(progs))])
        else:
            for i in range(len(progs)):
                ctx.threads([body(i)])
        return [w.log for w in ws]

    fresh = {}
    for i, j in case.get("fresh", []):
        if i < len(progs) and j < len(progs[i]) and "'mine'" not in repr(progs[i][j]):
            r = in_fresh(ctx, case, progs[i][j], "f%d-%d" % (i, j))
            if r is not None:
                fresh[i, j] = r
                ctx.probe("call repeated in a process with no history")
    alone = phase("a", False, None)
    for (i, j), x in fresh.items():
        op = progs[i][j]
        d = same(np, x, alone[i][j])
        if d:
            ctx.violate("disturbed-by-history:%s" % (op[1][0] if op[0] == "call" else op[0]), [op, "first call of a process " + d])
    mixed = phase("m", True, {} if case["share"] else None)
    again = phase("z", False, None)
    for tag, logs in (("disturbed-by-others", mixed), ("disturbed-by-history", again)):
        for i, (p, q) in enumerate(zip(alone, logs)):
            for j, (x, y) in enumerate(zip(p, q)):
                d = same(np, x, y)
                if d:
                    op = progs[i][j]
                    ctx.violate("%s:%s" % (tag, op[1][0] if op[0] == "call" else op[0]), [op, d])
    if len([p for p in progs if len(p) >= 3]) >= 2 or ctx.probes.get("nested call"):
        ctx.probe("nontrivial")
    f = sum(1 for p in alone for x in p if x[0] == "exc")
    if f:
        ctx.probe("fault:failed call among others", f)
    ctx.heap_ok()
