"""Binary persistence round trip: what was saved is what is loaded, exactly, over any sequence of partial transfers."""
import io
import os
import pickle

from ..core import gen_sched
from . import arrlib as A
from . import iolib as IO

RUNS = {"quick": 12000, "thorough": 150000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least one array went out to storage and came back under the run's transfer pattern"
REAL = ["rumpy extension compiled from /repo (npy/npz/raw writers and readers, zip and deflate crates, array copies)", "numpy reading and writing the same files", "Linux file system as the medium"]
STUB = ["read/write/seek/open system calls of the extension (short transfers, EINTR)", "allocator layout", "thread scheduling between operations"]
ASSUME = ["files written through Python's own open() (pickle dump) are not subject to injected partial transfers"]
SHRINK = ["prog", "prog/*", "prog/*/*/arrs", "chunks"]

import numpy as _np


def gen_job(rng):
    k = rng.random()
    fmt = rng.choice(IO.BIN)
    n = rng.choice([0, 1, 1, 2, 3]) if fmt in ("npz", "npzc") else 1
    maxn = 200 if rng.random() < 0.9 else 5000
    arrs = [A.gen_arr(rng, _np, dts=A.DT_STORE, maxn=maxn, nd=1 if maxn == 5000 else None) for _ in range(n)]
    if maxn == 5000:
        for a in arrs:
            a["shape"] = [rng.choice([1023, 1024, 1025, 2047, 4096, 4999])]
            a["chain"] = []
            a["fill"] = "ramp"
    npos = rng.randrange(0, n + 1)
    job = {"fmt": fmt, "arrs": arrs, "names": IO.gen_names(rng, n), "npos": npos, "dir": "out" if k < 0.7 else "in",
           "old": rng.choice([None, None, "longer", "shorter"]), "ver": rng.choice([None, None, [1, 0], [2, 0], [3, 0]]),
           "zero_d": rng.random() < 0.06}
    if fmt == "raw":
        job["count"] = rng.choice([None, None, 0, 1, 3, 10 ** 6])
        job["offset"] = rng.choice([None, None, 0, 1, 2])
    if fmt == "bytes":
        job["count"] = rng.choice([None, None, 0, 1, 2])
        job["offset"] = rng.choice([None, None, 0, 1])
    return job


FOREIGN = [">i2", ">i4", ">u8", ">f4", ">f8", ">c16", "<U3", "|S4", "<m8[s]", ">M8[s]", "<f16", "|V4", "rec"]


def gen(rng, tier):
    if rng.random() < 0.03:
        return {"foreign": rng.choice(FOREIGN), "npz": rng.random() < 0.4, "seed": rng.randrange(1000), "shape": A.gen_shape(rng, 50),
                "chunks": IO.gen_chunks(rng), "knobs": {"alloc": 1}, "prog": []}
    nt = rng.choice([1, 1, 1, 2])
    return {"prog": [[gen_job(rng) for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)],
            "chunks": IO.gen_chunks(rng), "knobs": {"alloc": rng.choice([1, 1, 2, 3])}, "sched": gen_sched(rng, 40) if nt > 1 else []}


def size(c):
    return sum(map(len, c["prog"])) or 1


def run_foreign(ctx, case):
    """A file numpy wrote with an element type rumpy may not know: the right values or an exception, never others."""
    np, rp = ctx.np, ctx.rp
    n = A.prod(case["shape"])
    base = np.arange(case["seed"], case["seed"] + n)
    if case["foreign"] == "rec":
        a = np.zeros(n, dtype=[("a", "<i4"), ("b", "<f8")])
        a["a"], a["b"] = base, base
    elif case["foreign"] == "|V4":
        a = base.astype("<i4").view("V4")
    else:
        a = base.astype(case["foreign"])
    a = a.reshape(tuple(case["shape"]))
    path = ctx.path("f.npz" if case["npz"] else "f.npy")
    (np.savez if case["npz"] else np.save)(path, a)
    ctx.note("foreign %s" % case["foreign"])
    try:
        got = rp.load(path)
        if case["npz"]:
            got = got["arr_0"]
    except Exception:
        ctx.probe("foreign-refused")
        return
    except BaseException as e:
        ctx.violate("foreign-type-panics", "%s: %s" % (case["foreign"], e))
    ctx.probe("nontrivial")
    if not isinstance(got, rp.ndarray) or tuple(got.shape) != a.shape or not bool((np.asarray(got) == a).all()):
        ctx.violate("foreign-type-misread", "%s: got %s want %s" % (case["foreign"], A.brief(np, got), A.brief(np, a)))


def run(ctx, case):
    if "foreign" in case:
        return run_foreign(ctx, case)

    def body(t, jobs):
        def f():
            for j, job in enumerate(jobs):
                ctx.y("job")
                ctx.note("thread %d %s %s" % (t, job["fmt"], job["dir"]))
                one(ctx, job, "t%d_%d" % (t, j))
        return f
    ctx.threads([body(t, js) for t, js in enumerate(case["prog"])])


def expect(ctx, what, got, want, job):
    if not A.same(ctx.np, got, want):
        ctx.violate("round-trip:" + what, "%s: got %s want %s" % (job["arrs"] and [(a["dtype"], a["shape"], a["chain"]) for a in job["arrs"]],
                                                                 A.brief(ctx.np, got), A.brief(ctx.np, want)))


def one(ctx, job, stem):
    rp, np = ctx.rp, ctx.np
    fmt = job["fmt"]
    try:
        pairs = [A.build(rp, np, s) for s in job["arrs"]]
        if job["zero_d"] and pairs:
            pairs[0] = (rp.sum(pairs[0][0], axis=None) if False else rp.full((), 3.5), np.float64(3.5).reshape(()))
    except BaseException as e:
        raise RuntimeError("cannot build %s: %r" % (job["arrs"], e))
    for (r, n), s in zip(pairs, job["arrs"]):
        if not A.same(np, r, n):
            ctx.violate("array-from-bytes", "%s: got %s want %s" % (s, A.brief(np, r), A.brief(np, n)))
    rs, ns = [p[0] for p in pairs], [p[1] for p in pairs]
    job = dict(job, names=job["names"][:len(rs)], npos=min(job["npos"], len(rs)))
    ks = IO.keys(job["names"], job["npos"])
    try:
        if fmt == "bytes":
            return bytes_job(ctx, job, rs[0], ns[0])
        if fmt == "pickles":
            b = rs[0].dumps()
            expect(ctx, "dumps", pickle.loads(b), ns[0], job)
            ctx.probe("nontrivial")
            return
        path = ctx.path(stem + IO.ext(fmt))
        if job["old"]:
            with open(path, "wb") as f:
                f.write(b"Z" * (200000 if job["old"] == "longer" else 3))
            ctx.probe("overwrites")
        if job["dir"] == "out":
            IO.write(rp, np, fmt, path, rs, job["names"], job["npos"])
            foreign_read(ctx, job, fmt, path, ns, ks)
        else:
            foreign_write(ctx, job, fmt, path, ns, ks)
        if fmt == "raw":
            return raw_back(ctx, job, path, ns[0])
        back = IO.read(rp, np, fmt, path)
    except BaseException as e:
        if ctx.viol:
            raise
        ctx.violate("persistence-failed:%s:%s" % (fmt, type(e).__name__), "%s: %s" % ([(a["dtype"], a["shape"]) for a in job["arrs"]], e))
    ctx.probe("nontrivial")
    ctx.probe("fmt:" + fmt)
    if fmt == "pickle":
        expect(ctx, fmt, back[0][1], ns[0], job)
        return
    if fmt != "npy":
        if sorted(k for k, _ in back) != sorted(ks):
            ctx.violate("names-changed", "%s -> %s" % (ks, [k for k, _ in back]))
        d = dict(back)
        back = [d[k] for k in ks]
    else:
        back = [back[0][1]]
    for b, n in zip(back, ns):
        expect(ctx, fmt + ":" + job["dir"], b, n, job)
    for r, n in zip(rs, ns):
        expect(ctx, "source-changed", r, n, job)
    # what came back is an ordinary array: it can be used and saved again
    for b, n in zip(back, ns):
        c = b.copy()
        expect(ctx, "copy-of-loaded", c, n, job)
    ctx.log("ok %s %d" % (fmt, len(back)))


def foreign_read(ctx, job, fmt, path, ns, ks):
    """numpy reads the same file"""
    np = ctx.np
    if fmt == "npy":
        try:
            expect(ctx, "numpy-reads-npy", np.load(path, allow_pickle=False), ns[0], job)
        except Exception as e:
            if ctx.viol:
                raise
            ctx.violate("numpy-cannot-read:npy", str(e))
    elif fmt in ("npz", "npzc"):
        try:
            with np.load(path, allow_pickle=False) as z:
                got = {k: z[k] for k in z.files}
        except Exception as e:
            ctx.violate("numpy-cannot-read:npz", str(e))
        # numpy strips one .npy from member names
        want = {}
        for k, n in zip(ks, ns):
            want[k] = n
        if sorted(got) != sorted(want):
            ctx.violate("numpy-sees-other-names", "%s -> %s" % (sorted(want), sorted(got)))
        for k in want:
            expect(ctx, "numpy-reads-npz", got[k], want[k], job)
    elif fmt == "raw":
        with open(path, "rb") as f:
            b = f.read()
        if b != ns[0].tobytes():
            ctx.violate("round-trip:raw-bytes", "%d bytes, want %d" % (len(b), ns[0].nbytes))


def foreign_write(ctx, job, fmt, path, ns, ks):
    np = ctx.np
    if fmt == "npy":
        with open(path, "wb") as f:
            np.lib.format.write_array(f, ns[0], version=tuple(job["ver"]) if job["ver"] else None, allow_pickle=False)
    elif fmt in ("npz", "npzc"):
        f = np.savez if fmt == "npz" else np.savez_compressed
        f(path, *ns[:job["npos"]], **dict(zip(ks[job["npos"]:], ns[job["npos"]:])))
    elif fmt == "raw":
        ns[0].tofile(path)
    elif fmt == "pickle":
        with open(path, "wb") as f:
            pickle.dump(ns[0], f)


def raw_back(ctx, job, path, n):
    np, rp = ctx.np, ctx.rp
    dt = "float64" if job["zero_d"] else job["arrs"][0]["dtype"]
    flat = np.ascontiguousarray(n).ravel()
    kw = {}
    off = 0
    if job["offset"] is not None:
        off = job["offset"] * flat.dtype.itemsize
        if off > flat.nbytes:
            off = flat.nbytes
        kw["offset"] = off
    want = flat[off // flat.dtype.itemsize:]
    if job["count"] is not None:
        kw["count"] = job["count"]
        want = want[:job["count"]]
    got = rp.fromfile(path, dtype=dt, **kw)
    ctx.probe("nontrivial")
    ctx.probe("fmt:raw")
    expect(ctx, "raw", got, want, job)


def bytes_job(ctx, job, r, n):
    np, rp = ctx.np, ctx.rp
    dt = "float64" if job["zero_d"] else job["arrs"][0]["dtype"]
    b = r.tobytes()
    if b != n.tobytes():
        ctx.violate("round-trip:tobytes", "%s" % (job["arrs"],))
    flat = np.ascontiguousarray(n).ravel()
    kw = {}
    o = 0
    if job["offset"] is not None and job["offset"] * flat.dtype.itemsize <= len(b):
        o = job["offset"]
        kw["offset"] = o * flat.dtype.itemsize
    want = flat[o:]
    if job["count"] is not None and job["count"] <= want.size:
        kw["count"] = job["count"]
        want = want[:job["count"]]
    got = rp.frombuffer(b, dtype=dt, **kw)
    ctx.probe("nontrivial")
    ctx.probe("fmt:bytes")
    expect(ctx, "frombuffer", got, want, job)
