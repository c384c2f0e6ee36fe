"""Text persistence round trip: rows, columns and numbers survive being written and read back through arbitrarily split transfers."""
import decimal

from ..core import gen_sched
from . import arrlib as A
from . import iolib as IO
import numpy as _np

RUNS = {"quick": 14000, "thorough": 150000}
SECONDS = {"quick": 150, "thorough": 3000}
RULE = "a run counts when at least one number went out as text and came back under the run's transfer pattern"
REAL = ["rumpy extension compiled from /repo (savetxt, loadtxt, genfromtxt, tofile/fromfile with separators)", "numpy reading and writing the same files", "Linux file system as the medium"]
STUB = ["read/write/open system calls of the extension (short transfers, EINTR)", "allocator layout", "thread scheduling between operations"]
ASSUME = ["integers are restricted to those the chosen format writes with all their digits (any with %d, %i and %s; 10**18 with %.17e; 2**53 with %g)",
          "complex and date arrays may be refused"]
SHRINK = ["prog", "prog/*", "chunks"]
DTS = ["float64", "float64", "float64", "float32", "int64", "int64", "uint64", "int32", "uint8", "int16", "uint32", "bool", "float16"]
FMTS = [None, None, None, "%.18e", "%.17e", "%.20e", "%.17g", "%s"]
TOP = {None: 10 ** 19 - 1, "%.18e": 10 ** 19 - 1, "%.17e": 10 ** 18 - 1, "%.17g": 2 ** 53}


def gen_job(rng):
    a = A.gen_arr(rng, _np, dts=DTS, chain=2, nd=rng.choice([1, 2, 2]), fill=rng.choice(["ramp", "rand"]))
    if rng.random() < 0.12:
        a["shape"] = rng.choice([[400], [900], [70, 12], [9, 100]])
        a["chain"] = []
    if rng.random() < 0.03:
        a["dtype"] = rng.choice(["complex64", "complex128", "datetime64[s]", "timedelta64[ns]"])
    kind = rng.choice(["txt", "txt", "txt", "gen", "sep"])
    j = {"kind": kind, "arr": a, "dir": rng.choice(["out", "out", "in"])}
    if kind == "sep":
        j["sep"] = rng.choice([",", " ", ";", "\n", ", ", "\t", "::"])
        j["count"] = rng.choice([None, None, None, 0, 1, 3, 10 ** 6])
        j["format"] = rng.choice(FMTS + ["%d", "%i"])
        return j
    j["delim"] = rng.choice([None, None, ",", ";", "\t", "|", ", ", " "])
    j["newline"] = rng.choice(["\n", "\n", "\n", "\r\n"])
    j["header"] = rng.choice(["", "", "one", "x y z", "two\nlines", "1 2 3"])
    j["footer"] = rng.choice(["", "", "", "end", "a\nb"])
    j["comments"] = rng.choice(["# ", "# ", "#", "%", "// "])
    j["fmt"] = rng.choice(FMTS + ["%d", "%i"])
    j["inline"] = rng.choice([None, None, None, " note", "note 7", ""])
    j["holes"] = rng.choice([None, None, None, 1, 2, 3])
    j["bad"] = rng.choice([None] * 7 + ["word", "1x", "range", "fraction", "--1", "1 2 3 4 5 6 7 8 9"])
    j["skip"] = rng.choice([0, 0, 0, 0, 1, 2])
    j["foot"] = rng.choice([0, 0, 0, 1, 2])
    j["max"] = rng.choice([None, None, None, 0, 1, 2, 1000])
    j["use"] = rng.choice([None, None, None, [0], [-1], [0, -1], [1, 0], [0, 0]])
    j["blank"] = rng.random() < 0.15
    return j


def gen(rng, tier):
    nt = rng.choice([1, 1, 1, 2])
    return {"prog": [[gen_job(rng) for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)],
            "chunks": IO.gen_chunks(rng), "knobs": {"alloc": rng.choice([1, 1, 2, 3])}, "sched": gen_sched(rng, 40) if nt > 1 else []}


def size(c):
    return sum(map(len, c["prog"])) or 1


def run(ctx, case):
    def body(t, jobs):
        def f():
            for j, job in enumerate(jobs):
                ctx.y("job")
                ctx.note("thread %d %s %s" % (t, job["kind"], job["dir"]))
                one(ctx, job, "t%d_%d.txt" % (t, j))
        return f
    ctx.threads([body(t, js) for t, js in enumerate(case["prog"])])


def tame(np, n, fmt):
    """Integers the format writes with all their digits; floats %d writes without losing anything."""
    if n.dtype.kind in "iu" and n.dtype.itemsize == 8:
        top = min(TOP.get(fmt, 2 ** 64), np.iinfo(n.dtype).max)
        return np.clip(n, max(-top, np.iinfo(n.dtype).min), top)
    if n.dtype.kind == "f" and fmt in ("%d", "%i"):
        return np.where(np.isfinite(n), np.trunc(n) + 0.0, 0).astype(n.dtype)
    return n


def expect(ctx, sig, got, want, job):
    np = ctx.np
    if not A.same(np, got, want):
        ctx.violate(sig, "%s: got %s want %s" % ({k: v for k, v in job.items()}, A.brief(np, got), A.brief(np, want)))


def one(ctx, job, name):
    rp, np = ctx.rp, ctx.np
    r0, n = A.build(rp, np, job["arr"])
    cplx = n.dtype.kind in "cmM"
    r = r0
    m = tame(np, n, job.get("fmt", job.get("format")))
    if m is not n and m.tobytes() != np.ascontiguousarray(n).tobytes():
        n = m
        r = rp.frombuffer(np.ascontiguousarray(n).tobytes(), dtype=job["arr"]["dtype"])
        if n.ndim != 1:
            r = r.reshape(tuple(n.shape))
    path = ctx.path(name)
    try:
        if job["kind"] == "sep":
            return sep_job(ctx, job, path, r, n, cplx)
        return table_job(ctx, job, path, r, n, cplx)
    except Exception as e:
        if ctx.viol:
            raise
        ctx.violate("text-io-failed:%s:%s" % (job["kind"], type(e).__name__), "%s: %s" % (job, e))
    except BaseException as e:
        if ctx.viol:
            raise
        ctx.violate("text-io-panic", "%s: %s" % (job, e))


def refused(ctx, f):
    """Complex arrays: an exception, or a file from which the values can be had back; never silently other numbers."""
    try:
        f()
    except Exception:
        ctx.probe("complex-refused")
        return True
    return False


def dec(n):
    return n.astype("uint8") if n.dtype.kind == "b" else n


def sep_job(ctx, job, path, r, n, cplx):
    rp, np = ctx.rp, ctx.np
    sep = job["sep"]
    kw = {} if job["format"] is None else {"format": job["format"]}
    flat = np.ascontiguousarray(n).ravel()
    if cplx:
        if not refused(ctx, lambda: r.tofile(path, sep=sep)) and n.dtype.kind == "c":
            txt = open(path).read()
            vals = [complex(t.strip().strip("()")) for t in txt.split(sep) if t.strip()]
            expect(ctx, "complex-text", np.array(vals, dtype=n.dtype), flat, job)
        return
    if job["dir"] == "out":
        r.tofile(path, sep=sep, **kw)
        with open(path) as f:
            toks = [t for t in f.read().split(sep) if t.strip()]
        vals = numbers(np, toks, flat.dtype)
        expect(ctx, "text-file-has-other-numbers", vals, flat, job)
    else:
        with open(path, "w") as f:
            f.write(sep.join(repr(x) for x in dec(flat).tolist()))
    if sep == "\n" or flat.size == 0:
        pass
    ck = {} if job["count"] is None else {"count": job["count"]}
    got = rp.fromfile(path, dtype=job["arr"]["dtype"], sep=sep, **ck)
    ctx.probe("nontrivial" if flat.size else "empty")
    expect(ctx, "text-round-trip:sep", got, flat if job["count"] is None else flat[:job["count"]], job)


def numbers(np, toks, dt):
    """What the written tokens mean, digit for digit."""
    if dt.kind in "iu":
        return np.array([int(decimal.Decimal(x)) for x in toks], dtype=dt)
    return np.array([float(x) for x in toks], dtype="float64").astype(dt)


def bad_token(np, kind, dt):
    if kind == "range":
        return str(int(np.iinfo(dt).max) + 1) if dt.kind in "iu" else "1e"
    if kind == "fraction":
        return "2.5" if dt.kind in "iu" else "2.5.5"
    return kind


def put_holes(np, job, t, delim):
    """The table as text fields, some of them missing (genfromtxt fills them in)."""
    cells = [[repr(x) for x in dec(row).tolist()] for row in t]
    if job["kind"] != "gen" or not job["holes"] or job["bad"] or t.dtype.kind == "b" or delim in (None, " "):
        return t, cells, None, ""
    if t.shape[1] < 2:
        return t, cells, None, ""
    t = t.copy()
    fill = [7, 0, 11][job["holes"] - 1]
    marker = ["", "NA", "-"][job["holes"] - 1]
    for k in range(t.size):
        i, j = divmod(k, t.shape[1])
        if (k * 2654435761 + t.size * 40503) % 7 < 2:
            t[i, j] = fill
            cells[i][j] = ["", marker, "??"][k % 3]
    for i, row in enumerate(cells):
        if not "".join(row).strip():  # a line of separators only: rows of blanks are not rows
            t[i, 0] = 1
            row[0] = "1"
    return t, cells, fill, marker


def bad_job(ctx, job, path, rk, t, cells, sel, delim, fill):
    """One field that is no number of the element type: an error (or, in genfromtxt, a filled-in field), never another number."""
    rp, np = ctx.rp, ctx.np
    i = sel[len(sel) // 2]
    j = t.shape[1] // 2
    rk = {k: v for k, v in rk.items() if k in ("dtype", "comments", "delimiter")}
    if t.dtype.kind == "b":
        return
    tok = bad_token(np, job["bad"], t.dtype)
    cells = [list(r) for r in cells]
    cells[i][j] = tok
    with open(path, "w", newline="") as f:
        for row in cells:
            f.write((delim if delim is not None else " ").join(row) + job["newline"])
    ctx.probe("bad field")
    try:
        got = np.asarray((rp.genfromtxt if job["kind"] == "gen" else rp.loadtxt)(path, **rk))
    except Exception:
        return
    shape = t.shape if t.shape[1] > 1 else t.shape[:1]
    if " " in tok and delim in (None, " ") and len(cells) == 1:
        return  # a single row of more numbers
    if job["kind"] != "gen" or t.dtype.kind != "f" or got.shape != shape or not np.isnan(got.reshape(t.shape)[i, j]):
        ctx.violate("bad-field-read", "%s: %r read as %s" % (job, tok, A.brief(np, got)))
        return
    w = t.copy()
    w[i, j] = np.nan
    expect(ctx, "text-round-trip:around-bad-field", got, w.reshape(shape), job)


def table_job(ctx, job, path, r, n, cplx):
    rp, np = ctx.rp, ctx.np
    if n.ndim > 2:
        n = n.reshape(n.shape[0], -1) if n.size else n
    if n.ndim == 0 or n.size == 0:
        ctx.probe("empty")
        if not cplx:
            rp.savetxt(path, r)
        return
    t = n.reshape(-1, 1) if n.ndim == 1 else n
    delim = job["delim"]
    kw = {k: job[k] for k in ("newline", "header", "footer", "comments")}
    if job["fmt"]:
        kw["fmt"] = job["fmt"]
    if delim is not None:
        kw["delimiter"] = delim
    if cplx:
        if not refused(ctx, lambda: rp.savetxt(path, r, **kw)) and n.dtype.kind == "c":
            got = np.loadtxt(path, dtype=n.dtype, delimiter=delim, comments=job["comments"].strip())
            expect(ctx, "complex-text", np.asarray(got).reshape(t.shape), t, job)
        return
    if job["dir"] == "out":
        rp.savetxt(path, r, **kw)
        # what is on disk, read independently
        with open(path, newline="") as f:
            lines = f.read().split(job["newline"])
        rows = [x for x in lines if x and not x.startswith(job["comments"])]
        vals = [x for ln in rows for x in (ln.split(delim) if delim is not None else ln.split())]
        if len(rows) != len(t) or len(vals) != t.size:
            ctx.violate("text-file-has-other-numbers", "%s: %d rows %d fields for %s" % (job, len(rows), len(vals), t.shape))
            return
        expect(ctx, "text-file-has-other-numbers", numbers(np, vals, n.dtype).reshape(t.shape), t, job)
        want_hdr = [job["comments"] + x for x in job["header"].splitlines()] + [job["comments"] + x for x in job["footer"].splitlines()]
        if [x for x in lines if x.startswith(job["comments"])] != want_hdr:
            ctx.violate("header-or-footer-lost", "%s: %s" % (job, lines[:3]))
    else:
        t, cells, fill, marker = put_holes(np, job, t, delim)
        inline = "" if job["inline"] is None else job["comments"] + job["inline"]
        with open(path, "w", newline="") as f:
            nl = job["newline"]
            for x in job["header"].splitlines():
                f.write(job["comments"] + x + nl)
            for i, row in enumerate(cells):
                f.write((delim if delim is not None else " ").join(row) + (inline if i % 3 != 1 else "") + nl)
                if job["blank"] and i % 2:
                    f.write(nl)
            for x in job["footer"].splitlines():
                f.write(job["comments"] + x + nl)
    ctx.probe("nontrivial")
    ctx.probe("numbers", int(t.size))
    # reader options as a function of the table
    nh, nf = len(job["header"].splitlines()), len(job["footer"].splitlines())
    skip, mx, use = job["skip"], job["max"], job["use"]
    blank = job["blank"] and job["dir"] == "in"
    if blank:
        skip = 0
    lines = [("h", None)] * nh
    for i in range(t.shape[0]):
        lines.append(("r", i))
        if blank and i % 2:
            lines.append(("b", None))
    lines += [("f", None)] * nf
    foot = 0
    if job["kind"] == "gen":
        foot = 0 if blank else job["foot"]
    sel = [i for k, i in lines[skip:len(lines) - foot if foot else None] if k == "r"]
    if mx is not None:
        sel = sel[:mx]
    w = t[sel]
    rk = {"dtype": job["arr"]["dtype"], "comments": job["comments"].strip()}
    if delim is not None and not (delim == " "):
        rk["delimiter"] = delim
    if delim == " ":
        rk["delimiter"] = " "
    if use is not None:
        cols = [c % t.shape[1] for c in use]
        if all(c < t.shape[1] for c in cols):
            rk["usecols"] = cols
            w = w[:, cols]
    if mx is not None:
        rk["max_rows"] = mx
    if job["dir"] == "in" and job["bad"] and sel:
        return bad_job(ctx, job, path, rk, t, cells, sel, delim, fill)
    if job["kind"] == "gen":
        if job["dir"] == "in" and fill is not None:
            rk["filling_values"] = fill
            if marker:
                rk["missing_values"] = marker
        if skip:
            rk["skip_header"] = skip
        if foot:
            rk["skip_footer"] = foot
        got = rp.genfromtxt(path, **rk)
    else:
        if skip:
            rk["skiprows"] = skip
        got = rp.loadtxt(path, **rk)
    if not sel:
        if np.asarray(got).size:
            ctx.violate("text-round-trip:empty", "%s: %s" % (job, A.brief(np, got)))
        return
    if w.shape[1] == 1:
        w = w.ravel()
    expect(ctx, "text-round-trip:" + job["kind"], got, w, job)
    ctx.log("ok %d" % w.size)
