"""Files that a crash, a torn write or damage left behind: complete data or an ordinary exception, never a crash, hang or invented data."""
import os
import random
import struct

from . import arrlib as A
from . import iolib as IO
import numpy as _np

RUNS = {"quick": 14000, "thorough": 200000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when the file read back really differed from a complete one (cut, torn, flipped, rewritten header) or the writer died mid-save"
REAL = ["rumpy extension compiled from /repo (all readers and writers, zip and deflate crates)", "numpy as independent reader", "Linux file system as the medium"]
STUB = ["process crash at any write of a save (only what reached the disk survives)", "torn, lost, stale and flipped sectors", "short reads and EINTR while reading",
        "allocator (refuses single requests over 4 GiB, fences blocks)"]
ASSUME = ["formats without a checksum (.npy, raw, text) cannot notice changed bytes inside the data area; there only the unchanged part is compared",
          "after a crash the surviving file is a prefix of what was written (truncate-then-append), or for torn-write runs any mix of sectors"]
SHRINK = ["muts", "arrs", "chunks", "faults"]
FMT = ["npy", "npy", "npz", "npz", "npzc", "npzc", "raw", "txt", "txtsep", "gen"]

DESCR = ["<f8", "<f8", "<i4", "|b1", "<c16", ">f8", "|O", "<U3", "|S2", "<f16", "junk", "", "<M8[ns]", "<M8[xx]", "f8", "|u1", "<i0", "<f80", "<i4, <i4", "<V4", "<f\u00e9"]
SHAPE = ["(3,)", "(2, 3)", "()", "(0,)", "(0, 5)", "(6, )", "(-1,)", "(2,0)", "(1e3,)", "(99999999999,)", "(9223372036854775808,)", "(9223372036854775807, 2)",
         "(4294967296, 4294967296)", "(0, 18446744073709551615, 4)", "(0, 4294967296, 4294967296, 4294967296)", "(3", "3", "(3L,)", "((3,),)", "(1,)*3", "(" + "1, " * 70 + ")", "(2305843009213693952,)",
         "(3.0,)", "(True,)", "(0x3,)", "(18446744073709551616,)", "(+3,)", "(3,,2)", "(1000000000,)", "(536870912, 2)", "( 3 , 2 )", "(2**3,)"]
ORDER = ["False", "False", "True", "1", "", "Falsy", "None"]


def gen(rng, tier):
    fmt = rng.choice(FMT)
    mode = rng.choice(["trunc", "trunc", "flip", "flip", "tear", "crash", "crash", "garbage"] + (["header", "header", "header"] if fmt == "npy" else []))
    txt = fmt in ("txt", "txtsep", "gen")
    n = rng.choice([1, 2, 3]) if fmt in ("npz", "npzc") else 1
    arrs = []
    for _ in range(n):
        a = A.gen_arr(rng, _np, dts=["float64", "int64"] if txt else None, chain=1, nd=rng.choice([1, 2]), fill="ramp")
        if rng.random() < 0.25:
            a["shape"] = rng.choice([[700], [1100], [3000], [40, 30]])
            a["chain"] = []
        arrs.append(a)
    c = {"fmt": fmt, "mode": mode, "arrs": arrs, "chunks": IO.gen_chunks(rng) if rng.random() < 0.3 else [], "knobs": {"alloc": rng.choice([1, 1, 2])}, "faults": [], "muts": []}
    f = lambda: rng.choice([0.0, 0.01, 0.02, 0.99, 0.999, 1.0]) if rng.random() < 0.4 else rng.random()
    if mode == "trunc":
        c["muts"] = [["cut", f(), rng.choice([0, 0, -1, 1, 2])]]
    elif mode == "flip":
        c["muts"] = [["flip", f(), rng.randrange(8)] for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        if rng.random() < 0.3:
            c["muts"] = [["set", f(), rng.choice([0, 255, 127, 128, 32])]]
    elif mode == "tear":
        s = rng.choice([16, 64, 512])
        c["muts"] = [["sector", s, f(), rng.choice(["zero", "stale", "dup"]), rng.choice([1, 1, 2, 4])] for _ in range(rng.choice([1, 1, 2]))]
    elif mode == "crash":
        c["faults"] = [{"call": "write", "n": rng.choice([0, 0, 0, 1, 1, 2, 3]) if rng.random() < 0.8 else rng.randrange(0, 60), "do": "crash", "arg": rng.choice([0, 0, 1, 7, 100, 511])}]
        if rng.random() < 0.7:
            c["chunks"] = rng.choice([[1], [64], [100, 7], [512], [3, 1000], [127], [128], [1000]])
    elif mode == "garbage":
        c["gseed"] = rng.randrange(10 ** 6)
        c["glen"] = rng.choice([0, 1, 5, 6, 7, 8, 9, 10, 11, 50, 200, 1000])
        c["magic"] = rng.random() < 0.6
    else:
        c["hdr"] = {"descr": rng.choice(DESCR) if rng.random() < 0.5 else "<f8", "order": rng.choice(ORDER) if rng.random() < 0.4 else rng.choice(["True", "False"]),
                    "shape": rng.choice(SHAPE), "ver": rng.choice([1, 1, 1, 2, 2, 3, 0, 255]), "lendelta": 0 if rng.random() < 0.8 else rng.choice([-60, -1, 1, 1000, 60000, 2 ** 31, 2 ** 32 - 200]),
                    "data": rng.choice([0, 1, 8, 23, 24, 48, 49, 4096]), "raw": rng.choice([None, None, None, None, "notutf8", "nokeys", "nul", "multibyte", "dq"])}
    return c


def size(c):
    return 2


def writef(ctx, case, path, rs):
    from . import c02
    c02.writef(ctx, case, path, rs)


def readf(ctx, case, path):
    rp = ctx.rp
    f = case["fmt"]
    if f == "npy":
        return {"": rp.load(path)}
    if f in ("npz", "npzc"):
        return dict(rp.load(path))
    dt = case["arrs"][0]["dtype"]
    if f == "raw":
        return {"": rp.fromfile(path, dtype=dt)}
    if f == "txtsep":
        return {"": rp.fromfile(path, dtype=dt, sep=",")}
    if f == "txt":
        return {"": rp.loadtxt(path, dtype=dt, delimiter=",")}
    return {"": rp.genfromtxt(path, dtype=dt, delimiter=",")}


def mutate(b, muts, stale):
    b = bytearray(b)
    for m in muts:
        if not b:
            break
        if m[0] == "cut":
            k = min(max(0, int(m[1] * len(b)) + m[2]), len(b))
            del b[k:]
        elif m[0] in ("flip", "set"):
            k = min(int(m[1] * len(b)), len(b) - 1)
            b[k] = b[k] ^ (1 << m[2]) if m[0] == "flip" else m[2]
        else:
            s = m[1]
            k = min(int(m[2] * len(b)) // s * s, (len(b) - 1) // s * s)
            e = min(len(b), k + s * m[4])
            if m[3] == "zero":
                b[k:e] = bytes(e - k)
            elif m[3] == "stale":
                b[k:e] = (stale * (len(b) // len(stale) + 2))[k:e]
            else:
                b[k:e] = bytes(b[max(0, k - s):max(0, k - s) + (e - k)])[:e - k].ljust(e - k, b"\0")
    return bytes(b)


def header_file(h):
    d = "{'descr': '%s', 'fortran_order': %s, 'shape': %s, }" % (h["descr"], h["order"], h["shape"])
    if h["raw"] == "nokeys":
        d = "{}"
    if h["raw"] == "dq":
        d = d.replace("'", '"')
    hb = d.encode("utf-8")
    if h["raw"] == "notutf8":
        hb = hb[:10] + b"\xff\xfe" + hb[10:]
    if h["raw"] == "nul":
        hb = hb.replace(b" ", b"\0")
    if h["raw"] == "multibyte":
        hb = hb.replace(b": (", ": \u00e9\u20ac(".encode())
    pre = 10 if h["ver"] < 2 else 12
    hb += b" " * (63 - (pre + len(hb)) % 64) + b"\n"
    n = len(hb) + h["lendelta"]
    ln = struct.pack("<H", n & 0xffff) if h["ver"] < 2 else struct.pack("<I", n & 0xffffffff)
    r = random.Random(7)
    return b"\x93NUMPY" + bytes([h["ver"], 0]) + ln + hb + bytes(r.randrange(256) for _ in range(h["data"]))


def attempt(ctx, case, path):
    try:
        return readf(ctx, case, path), None
    except Exception as e:
        return None, e
    except BaseException as e:
        ctx.violate("panic-on-damaged-file:" + case["fmt"], "%s: %s" % (type(e).__name__, e))


def npy_payload(b):
    """Offset of the data area as the file itself states it."""
    if len(b) < 12 or b[:6] != b"\x93NUMPY":
        return None
    if b[6] == 1:
        return 10 + struct.unpack("<H", b[8:10])[0]
    return 12 + struct.unpack("<I", b[8:12])[0]


def judge(ctx, case, b, full, got, ns):
    """What was loaded, against the bytes that are in the file and the arrays that were saved."""
    np = ctx.np
    f = case["fmt"]
    if f in ("npz", "npzc"):
        for k, v in got.items():
            if not any(A.same(np, v, n) for n in ns):
                ctx.violate("damaged-archive-read-as-data", "%s: key %r is none of the saved arrays: %s" % (case["muts"], k, A.brief(np, v)))
        return
    v = got[""]
    try:
        a = np.asarray(v)
    except ValueError:  # numpy itself has limits (64 axes)
        return
    if f == "npy":
        if case["mode"] in ("trunc", "crash") and len(b) < len(full):
            ctx.violate("incomplete-file-loads", "%d of %d bytes gave %s" % (len(b), len(full), A.brief(np, v)))
        off = npy_payload(b)
        raw = b[off:] if off is not None else b""
        if a.nbytes > len(raw):
            ctx.violate("more-data-than-the-file-has", "%d bytes from %d" % (a.nbytes, len(raw)))
        if a.tobytes() != raw[:a.nbytes] and a.tobytes(order="F") != raw[:a.nbytes]:
            ctx.violate("not-the-bytes-in-the-file", "%s" % A.brief(np, v))
        return
    if f == "raw":
        if a.tobytes() != b[:a.nbytes] or a.nbytes != len(b) // a.itemsize * a.itemsize:
            ctx.violate("not-the-bytes-in-the-file", "%d bytes of %d" % (a.nbytes, len(b)))
        return
    if case["mode"] in ("trunc", "crash"):
        # a cut text file: every element except the one the cut went through is the saved one
        w = np.ascontiguousarray(ns[0]).ravel()
        g = a.ravel()
        k = max(0, g.size - 1)
        if g.size > w.size or g[:k].tobytes() != w[:k].tobytes():
            ctx.violate("cut-text-gives-other-values", "%s want prefix of %s" % (A.brief(np, a), A.brief(np, w)))


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    pairs = [A.build(rp, np, s) for s in case["arrs"]]
    rs, ns = [p[0] for p in pairs], [p[1] for p in pairs]
    path = ctx.path("x" + {"npz": ".npz", "npzc": ".npz", "npy": ".npy"}.get(case["fmt"], ".dat"))
    good = ctx.path("good" + os.path.splitext(path)[1])
    ctx.note("%s of %s" % (case["mode"], case["fmt"]))
    if case["mode"] == "crash":
        from . import c02
        c02.disarm(ctx, case, [], lambda: writef(ctx, case, good, rs))
        c02.disarm(ctx, case, case["faults"], lambda: None)
        try:
            writef(ctx, case, path, rs)  # usually the process ends in here
        except BaseException as e:
            ctx.violate("failed-without-fault", "%s: %s" % (type(e).__name__, e))
        ctx.probe("crash-point-not-reached")
        return after_crash(ctx, case)
    ch = case["chunks"]
    ctx.set_chunks([])
    writef(ctx, case, good, rs)
    full = open(good, "rb").read()
    if case["mode"] == "header":
        b = header_file(case["hdr"])
    elif case["mode"] == "garbage":
        r = random.Random(case["gseed"])
        head = {"npy": b"\x93NUMPY\x01\x00", "npz": b"PK\x03\x04", "npzc": b"PK\x05\x06"}.get(case["fmt"], b"1.0,") if case["magic"] else b""
        b = (head + bytes(r.randrange(256) for _ in range(case["glen"])))[:case["glen"]]
    else:
        b = mutate(full, case["muts"], b"\x93NUMPY\x01\x00v\x00{'descr': '<f8', 'fortran_order': False, 'shape': (9,), }")
    with open(path, "wb") as fh:
        fh.write(b)
    ctx.set_chunks(ch)
    if b != full:
        ctx.probe("nontrivial")
    ctx.probe("mode:" + case["mode"])
    got, err = attempt(ctx, case, path)
    ctx.log("%s %s -> %s" % (case["mode"], case["fmt"], "loaded" if err is None else "refused"))
    ctx.probe("loaded" if err is None else "refused")
    if b == full:
        if err is not None:
            ctx.violate("complete-file-refused", str(err))
    if err is None:
        if case["fmt"] in ("npz", "npzc") and case["mode"] in ("trunc",) and len(b) < len(full):
            ctx.violate("incomplete-file-loads", "%d of %d bytes" % (len(b), len(full)))
        judge(ctx, case, b, full, got, ns)
        usable(ctx, got)
    ctx.calm()
    again(ctx, case, good, ns)


def usable(ctx, got):
    """Whatever came back is an ordinary array that can be copied and exported without touching foreign memory."""
    for v in got.values():
        try:
            ctx.np.asarray(v).tobytes()
            v.copy()
            repr(v)
        except Exception:
            pass
        except BaseException as e:
            ctx.violate("panic-using-loaded-array", "%s: %s" % (type(e).__name__, e))
    ctx.heap_ok()


def again(ctx, case, good, ns):
    """A damaged file leaves nothing behind: the intact one still loads."""
    np = ctx.np
    try:
        got = readf(ctx, case, good)
    except BaseException as e:
        ctx.violate("intact-file-refused-afterwards", "%s: %s" % (type(e).__name__, e))
    vals = [got[k] for k in sorted(got)]
    if case["fmt"] in ("npy", "npz", "npzc"):
        if len(vals) != len(ns) or not all(A.same(np, g, n) for g, n in zip(vals, ns)):
            ctx.violate("intact-file-misread-afterwards", "%s" % [A.brief(np, v) for v in vals])


def after_crash(ctx, case):
    np = ctx.np
    ns = [A.model(np, s) for s in case["arrs"]]
    path = ctx.path("x" + {"npz": ".npz", "npzc": ".npz", "npy": ".npy"}.get(case["fmt"], ".dat"))
    good = ctx.path("good" + os.path.splitext(path)[1])
    full = open(good, "rb").read()
    b = open(path, "rb").read() if os.path.exists(path) else None
    ctx.probe("mode:crash")
    if b is None:
        ctx.probe("crash-before-create")
        return
    if len(b) < len(full):
        ctx.probe("nontrivial")
        ctx.probe("partial-file-after-crash")
    ctx.note("reading %s back after a crash" % case["fmt"])
    got, err = attempt(ctx, case, path)
    ctx.probe("loaded" if err is None else "refused")
    if err is None:
        if case["fmt"] in ("npz", "npzc") and len(b) < len(full):
            ctx.violate("incomplete-file-loads", "%d of %d bytes" % (len(b), len(full)))
        judge(ctx, case, b, full, got, ns)
        usable(ctx, got)
    elif b == full:
        ctx.violate("complete-file-refused", str(err))
    again(ctx, case, good, ns)
