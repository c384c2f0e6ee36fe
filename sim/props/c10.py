"""Generators made without a seed work and differ from each other whatever the clock does."""
import os
import signal
import struct

from ..core import gen_sched, is_panic

RUNS = {"quick": 8000, "thorough": 60000}
SECONDS = {"quick": 150, "thorough": 1500}
RULE = "a run counts when at least two unseeded generators were made under the simulated clock"
REAL = ["rumpy extension compiled from /repo (generator construction and seeding)", "CPython 3.12 threads"]
STUB = ["system clock (stalled, coarse, stepping back, before the epoch, far future)", "thread scheduling", "allocator layout", "processes (forked inside a run)"]
ASSUME = ["hash-key entropy of the Rust standard library is drawn by the host process before the run; only distinctness is judged, never the values"]
SHRINK = ["prog", "prog/*", "clock", "forks"]


def gen_clock(rng):
    k = rng.choice(["stall", "stall", "coarse", "back", "epoch", "far", "alternate", "tick"])
    t0 = rng.randrange(10 ** 18, 2 * 10 ** 18)
    if k == "stall":
        return [t0]
    if k == "coarse":
        out, t = [], t0
        for _ in range(12):
            if rng.random() < 0.3:
                t += 15_625_000
            out.append(t)
        return out
    if k == "back":
        return [t0 - rng.choice([0, 1, 10 ** 9, 10 ** 12]) * i for i in range(8)]
    if k == "epoch":
        return [-rng.randrange(1, 10 ** 18) for _ in range(4)] + [0, 1]
    if k == "far":
        return [2 ** 62 + rng.randrange(1000) for _ in range(5)]
    if k == "alternate":
        return [t0, t0 + 1] * 6
    return [t0 + i for i in range(12)]


def gen(rng, tier):
    nt = rng.choice([1, 2, 3, 4])
    mk = lambda: rng.choice(["default_rng", "Generator", "default_none", "generator_none", "draw", "seeded"])
    return {"clock": gen_clock(rng), "sched": gen_sched(rng, 80), "knobs": {"alloc": rng.choice([1, 2, 3])},
            "forks": [rng.randrange(1, 4) for _ in range(rng.choice([0, 0, 1, 2, 3]))], "before": rng.randrange(3),
            "bulk": 300000 if rng.random() < 0.002 else 0,
            "prog": [[mk() for _ in range(rng.randrange(1, 6))] for _ in range(nt)]}


def size(c):
    return sum(map(len, c["prog"]))


def in_child(ctx, n):
    """First values of n unseeded generators made in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            got = []
            for _ in range(n):
                g = ctx.rp.random.default_rng()
                got += [g.random_raw(), g.random_raw()]
            os.write(w, struct.pack("<%dQ" % len(got), *got))
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        b += c
    os.close(r)
    os.waitpid(pid, 0)
    v = struct.unpack("<%dQ" % (len(b) // 8), b)
    if len(v) != 2 * n:
        ctx.violate("unseeded-failed:child", "%d of %d values from a forked process" % (len(v), 2 * n))
    return list(zip(v[::2], v[1::2]))


def run(ctx, case):
    rp = ctx.rp
    made = []

    def body(t, ops):
        def f():
            last = None
            for op in ops:
                ctx.y("op")
                ctx.note("thread %d %s" % (t, op))
                try:
                    if op == "draw":
                        if last is not None:
                            last.random(3)
                        continue
                    if op == "seeded":
                        a, b = rp.random.default_rng(7), rp.random.default_rng(7)
                        if a.random_raw() != b.random_raw():
                            ctx.violate("seeded-depends-on-clock")
                        continue
                    last = {"default_rng": lambda: rp.random.default_rng(), "Generator": lambda: rp.random.Generator(),
                            "default_none": lambda: rp.random.default_rng(None), "generator_none": lambda: rp.random.Generator(seed=None)}[op]()
                    first = (last.random_raw(), last.random_raw())
                except BaseException as e:
                    if ctx.viol:
                        raise
                    ctx.violate("unseeded-failed:%s" % type(e).__name__, [op, str(e)])
                made.append((t, op, first))
                ctx.log("made %d %s" % (t, op))
        return f

    ctx.threads([body(t, o) for t, o in enumerate(case["prog"])])
    if case.get("forks"):
        # forked processes inherit everything but their identity
        for i in range(case["before"]):
            g = rp.random.default_rng()
            made.append(("main", i, (g.random_raw(), g.random_raw())))
        for i, n in enumerate(case["forks"]):
            for v in in_child(ctx, n):
                made.append(("process", i, v))
        g = rp.random.default_rng()
        made.append(("main", "after", (g.random_raw(), g.random_raw())))
        ctx.probe("fault:process forked")
    for i in range(case.get("bulk", 0)):
        made.append(("bulk", i, rp.random.default_rng().random_raw()))
    if case.get("bulk"):
        ctx.probe("many generators")
    if len(made) >= 2:
        ctx.probe("nontrivial")
        ctx.probe("fault:clock pattern")
    seen = {}
    for t, op, first in made:
        if first in seen:
            ctx.violate("unseeded-generators-repeat", "%s and %s start with the same values" % (seen[first], (t, op)))
        seen[first] = (t, op)
