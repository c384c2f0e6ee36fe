"""Storage failures are reported: a save or load that could not be carried out completely never looks successful."""
import errno
import os

from . import arrlib as A
from . import iolib as IO
from ..core import is_panic
import numpy as _np

RUNS = {"quick": 16000, "thorough": 200000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least one injected storage fault actually hit a call of the operation under test"
REAL = ["rumpy extension compiled from /repo (all readers and writers, zip and deflate crates)", "numpy as independent reader", "Linux file system as the medium"]
STUB = ["open/read/write/seek/stat/close system calls of the extension: errors at any call, disk of any capacity, early end of file, short transfers, EINTR"]
ASSUME = ["errors reported only by close(2) are not counted: the standard library offers no way to see them",
          "pickle dumps go through Python's own file object and are out of this property"]
SHRINK = ["faults", "chunks", "arrs"]

ERR = {"open": [errno.EACCES, errno.EMFILE, errno.ENOENT, errno.EROFS], "read": [errno.EIO, errno.EISDIR],
       "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG], "seek": [errno.EIO, errno.EINVAL], "stat": [errno.EIO, errno.EACCES]}
FMT = ["npy", "npz", "npzc", "raw", "txt", "txtsep", "gen"]


def gen(rng, tier):
    fmt = rng.choice(FMT)
    txt = fmt in ("txt", "txtsep", "gen")
    n = rng.choice([1, 2, 3]) if fmt in ("npz", "npzc") else 1
    big = rng.random() < 0.35
    arrs = []
    for _ in range(n):
        a = A.gen_arr(rng, _np, dts=["float64", "int64"] if txt else None, chain=1, nd=rng.choice([1, 2]), fill="ramp")
        if big:
            a["shape"] = rng.choice([[700], [1100], [3000], [40, 30]])
            a["chain"] = []
        arrs.append(a)
    op = rng.choice(["save", "load"])
    # how the readers are told to read: [bytes of offset in items, items] or rows and columns
    opt = [rng.choice([0, 1, 2, 5, 10, 600]), rng.choice([-1, -1, 1, 3, 50])] if rng.random() < 0.5 else None
    c = {"opt": opt, "fmt": fmt, "op": op, "arrs": arrs, "chunks": IO.gen_chunks(rng) if rng.random() < 0.5 else [], "knobs": {"alloc": rng.choice([1, 1, 2])}}
    if op == "save" and rng.random() < 0.4:
        # a disk that fills up: anywhere from at once to just short of what is needed
        c["knobs"]["disk_cap"] = rng.choice([0, 1, 10, 64, 127, 128, 129]) if rng.random() < 0.3 else rng.randrange(0, 9000 if big else 1500)
        c["faults"] = []
    else:
        calls = ["open", "write", "write", "write", "seek"] if op == "save" else ["open", "read", "read", "read", "seek", "stat"]
        c["faults"] = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            call = rng.choice(calls)
            do = "err"
            arg = rng.choice(ERR[call])
            if call == "read" and not txt and rng.random() < 0.3:  # a text file has no frame that would show an early end
                do, arg = "eof", 0
            c["faults"].append({"call": call, "n": 0 if call in ("open", "stat") else (rng.randrange(0, 4) if rng.random() < 0.7 else rng.randrange(0, 40)), "do": do, "arg": arg})
    c["old"] = rng.choice([None, None, "valid", "junk"])
    return c


def size(c):
    return 2


def writef(ctx, case, path, rs):
    rp = ctx.rp
    f = case["fmt"]
    if f in ("npy", "npz", "npzc", "raw"):
        IO.write(rp, ctx.np, f, path, rs, ["n%d" % i for i in range(len(rs))], 0)
    elif f == "txtsep":
        rs[0].tofile(path, sep=",")
    else:
        rp.savetxt(path, rs[0], delimiter=",")


def readf(ctx, case, path):
    rp = ctx.rp
    f = case["fmt"]
    if f == "npy":
        return [rp.load(path)]
    if f in ("npz", "npzc"):
        d = rp.load(path)
        return [d[k] for k in sorted(d.keys())]
    if f == "raw":
        o = case.get("opt") or [0, -1]
        d = case["arrs"][0]["dtype"]
        return [rp.fromfile(path, dtype=d, count=o[1], offset=o[0] * ctx.np.dtype(d).itemsize)]
    if f == "txtsep":
        return [rp.fromfile(path, dtype=case["arrs"][0]["dtype"], sep=",")]
    if f == "txt":
        return [rp.loadtxt(path, dtype=case["arrs"][0]["dtype"], delimiter=",")]
    return [rp.genfromtxt(path, dtype=case["arrs"][0]["dtype"], delimiter=",")]


def want_of(ctx, case, ns):
    np = ctx.np
    f = case["fmt"]
    if f in ("npy", "npz", "npzc"):
        return ns
    n = np.ascontiguousarray(ns[0])
    if f == "raw" and case.get("opt"):
        k, m = case["opt"]
        n = n.ravel()[k:]
        return [n[:m] if m >= 0 else n]
    if f in ("raw", "txtsep"):
        return [n.ravel()]
    if n.size == 0:
        return None
    if n.ndim < 2 or n.size == n.shape[0]:
        return [n.ravel()]
    return [n.reshape(n.shape[0], -1)]


def nfds():
    return len(os.listdir("/proc/self/fd"))


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    pairs = [A.build(rp, np, s) for s in case["arrs"]]
    rs, ns = [p[0] for p in pairs], [p[1] for p in pairs]
    want = want_of(ctx, case, ns)
    path = ctx.path("x" + {"npz": ".npz", "npzc": ".npz", "npy": ".npy"}.get(case["fmt"], ".dat"))
    txt = case["fmt"] in ("txt", "txtsep", "gen")
    ctx.note("%s %s" % (case["op"], case["fmt"]))

    def agree(got):
        if want is None:
            return all(np.asarray(g).size == 0 for g in got)
        if len(got) != len(want):
            return False
        return all(A.same(np, g, w) for g, w in zip(got, want))

    fd0 = nfds()
    faults = case.get("faults", [])
    ok, err = True, None
    if case["op"] == "save":
        if case["old"]:
            with open(path, "wb") as f:
                f.write(b"\x93NUMPY" + b"o" * 300 if case["old"] == "valid" else b"junk")
        try:
            writef(ctx, case, path, rs)
        except Exception as e:
            ok, err = False, e
        except BaseException as e:
            ctx.violate("panic-on-storage-error", "%s: %s" % (type(e).__name__, e))
    else:
        disarm(ctx, case, faults, lambda: writef(ctx, case, path, rs))
        try:
            got = readf(ctx, case, path)
        except Exception as e:
            ok, err = False, e
        except BaseException as e:
            ctx.violate("panic-on-storage-error", "%s: %s" % (type(e).__name__, e))
    fired = [i for i in range(len(faults)) if ctx.L.sim_fault_fired(i)]
    st = lambda k: ctx.L.sim_stat(k)
    hit = bool(fired) or (case["knobs"].get("disk_cap") is not None and ctx.L.sim_stat(7) > 0)
    if hit:
        ctx.probe("nontrivial")
        ctx.probe("reported" if not ok else "absorbed")
    if not ok and not hit:
        ctx.violate("failed-without-fault", "%s: %s" % (type(err).__name__, err))
    if not ok and not isinstance(err, (OSError, ValueError)):
        ctx.violate("wrong-exception:%s" % type(err).__name__, str(err))
    ctx.log("%s hit=%s ok=%s" % (case["op"], hit, ok))
    if ok and case["op"] == "load" and not agree(got):
        ctx.violate("load-succeeded-with-wrong-data:" + case["fmt"], "faults %s: got %s want %s" % (faults, [A.brief(np, g) for g in got], [A.brief(np, w) for w in want or []]))
    ctx.calm()
    if nfds() != fd0:
        ctx.violate("descriptor-leak", "%d -> %d" % (fd0, nfds()))
    if ok and case["op"] == "save":
        try:
            back = readf(ctx, case, path)
        except BaseException as e:
            ctx.violate("save-succeeded-but-unreadable:" + case["fmt"], "faults %s: %s" % (faults or case["knobs"], e))
        if not agree(back):
            ctx.violate("save-succeeded-with-wrong-data:" + case["fmt"], "faults %s: got %s" % (faults or case["knobs"], [A.brief(np, g) for g in back]))
    for r, n in zip(rs, ns):
        if not A.same(np, r, n):
            ctx.violate("source-changed", A.brief(np, r))
    # once the faults stop, the same operation works
    try:
        writef(ctx, case, path, rs)
        back = readf(ctx, case, path)
    except BaseException as e:
        ctx.violate("no-recovery", "%s: %s" % (type(e).__name__, e))
    if not agree(back):
        ctx.violate("no-recovery", "wrong data after the fault stopped")


def disarm(ctx, case, faults, f):
    """Write the file for a load run without faults, then arm them."""
    import ctypes
    from ..core import K, A as ACT
    L = ctx.L
    L.sim_disk_reset()
    f()
    L.sim_disk_reset()
    for x in faults:
        L.sim_fault_add(K[x["call"]], x["n"], ACT[x["do"]], x.get("arg", 0))
    ctx.set_chunks(case["chunks"])
