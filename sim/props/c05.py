"""One memory: every view, export and write agrees with a single-copy model, and nothing outside the array is touched."""
from ..core import gen_sched
from . import memlib as M

RUNS = {"quick": 18000, "thorough": 300000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when it made at least one view or export and one write"
REAL = ["rumpy extension compiled from /repo (array core, views, indexing, in-place operations, export to numpy)", "CPython 3.12 threads", "numpy 2.3 as consumer of exported memory"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "the allocator the extension uses (guard pages on either side, freed memory fenced off)",
        "values whose conversion yields, looks at the arrays or raises"]
ASSUME = ["one GIL: preemption happens only at Python-level scheduling points and inside conversions the extension calls",
          "writes through broadcast views are not exercised (numpy forbids them)"]
SHRINK = ["prog", "prog/*"]


def gen(rng, tier):
    import numpy as np
    nt = rng.choice([1, 2, 2, 3])
    dts = [rng.choice(M.DTS)] if rng.random() < 0.6 else M.DTS
    c = {"knobs": {"alloc": rng.choice([1, 2, 2, 3, 3])}, "sched": gen_sched(rng, 200)}
    c["init"] = [M.gen_new(rng, np, dts, chain=rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([1, 1, 2]))]
    c["prog"] = [M.gen_prog(rng, np, rng.randrange(3, 12), dts) for _ in range(nt)]
    return c


def size(c):
    return sum(map(len, c["prog"]))


def run(ctx, case):
    w = M.World(ctx)
    for o in case["init"]:
        w.op(o)
    did = [0, 0]

    def body(p):
        def f():
            for o in p:
                ctx.y(o[0])
                ctx.note(str(o[:3]))
                try:
                    w.op(o)
                except M.Boom:
                    ctx.probe("fault:conversion raised")
                did[0 if o[0] in M.VIEWS else 1 if o[0] in M.WRITES else 1] += o[0] not in ("drop", "read", "new")
                w.check(o[0])
        return f
    ctx.threads([body(p) for p in case["prog"]])
    w.check("end")
    if did[0] and did[1]:
        ctx.probe("nontrivial")
