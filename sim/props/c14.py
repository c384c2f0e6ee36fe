"""No call, however its arguments are wrong, corrupts memory, kills the process or hangs; the module stays usable."""
from ..core import gen_sched, is_panic
from . import apilib as P
from . import arrlib as A

RUNS = {"quick": 28000, "thorough": 500000}
SECONDS = {"quick": 240, "thorough": 3000}
RULE = "a run counts when at least one call was made with arguments that do not fit it, or on a derived array, and a well-formed call afterwards gave its known result"
REAL = ["rumpy extension compiled from /repo (every callable of the module, its methods, operators, indexing and attributes)", "CPython 3.12 threads"]
STUB = ["thread scheduling (baton scheduler on seeded decisions)", "the allocator the extension uses (fenced blocks, seeded placement, released blocks made inaccessible)", "the rayon worker pool (simulated, seeded steals)"]
ASSUME = ["requests for more memory than the host has are not generated: Rust's allocation failure ends the process by design",
          "a Rust panic surfacing as PanicException is counted as a refusal, not as a crash"]
SHRINK = ["prog", "prog/*", "prog/*/*/1"]
NOTE_SIG = True
OOM_OK = True

ODD = [None, -1, 0, 1, 2, 3, 17, -17, -2 ** 62, 0.5, float("nan"), "x", "float64", [], [0], [1, -1], [0, 0], [5, 5], [None], True, "C", "F"]


def odd(rng):
    if rng.random() < 0.4:
        return ["a", P.lay_spec(rng, A.gen_shape(rng, 40), rng.choice(P.ANY + P.STR), rng.choice(["small", "pos", "nan", "rand"]))]
    if rng.random() < 0.1:
        return ["l", [["a", P.lay_spec(rng, A.gen_shape(rng, 20), rng.choice(P.NUM), "small")] for _ in range(rng.randrange(0, 3))]]
    return ["v", rng.choice(ODD)]


def index(rng, depth=0):
    k = rng.random()
    if k < 0.3:
        return ["v", rng.choice([0, 1, -1, 2, 5, -5, 100, -100, 2 ** 40, -2 ** 63])]
    if k < 0.6:
        c = [None, 0, 1, -1, 2, -2, 7, -7, 10 ** 6, -10 ** 6, 2 ** 62, -2 ** 62]
        st = [None, 1, -1, 2, -3, 10 ** 6, -10 ** 6, 2 ** 62, -2 ** 62, 0]
        return ["sl", rng.choice(c), rng.choice(c), rng.choice(st)]
    if k < 0.7:
        return ["el"]
    if k < 0.75:
        return ["v", None]
    if k < 0.85:
        return odd(rng)
    if depth:
        return ["v", 0]
    return ["t", [index(rng, 1) for _ in range(rng.randrange(0, 5))]]


NEW = []


def gen_step(rng, hostile, names):
    k = rng.random()
    if k < 0.6:
        c = P.gen_call(rng, name=rng.choice(names) if names and rng.random() < 0.5 else None, fills=("small", "nan", "rand"), big=rng.choice([0, 0.05]), hostile=hostile)
        if rng.random() < 0.15 and c[1]:
            c[1][rng.randrange(len(c[1]))] = odd(rng)
        if rng.random() < 0.1 and len(c[1]) < 5:
            c[1].append(odd(rng))
        if rng.random() < 0.15:
            c[2][rng.choice(["axis", "axis", "dtype", "keepdims", "n", "k", "out", "mode", "ord", "axes", "shape", "indices", "side", "ddof", "kind", "where"])] = odd(rng)
        return ["call"] + c
    if k < 0.75:
        return ["any", rng.random(), [odd(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]]
    if k < 0.85:
        return ["get", odd(rng), index(rng)]
    if k < 0.95:
        return ["set", odd(rng), index(rng), odd(rng)]
    return ["meth", odd(rng), rng.random(), [odd(rng) for _ in range(rng.choice([0, 1, 1, 2]))]]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2])
    hostile = rng.choice([0.1, 0.3, 0.6])
    names = rng.sample(P.NAMES, 3) if rng.random() < 0.5 else None
    return {"knobs": {"alloc": rng.choice([1, 2, 3]), "pool_threads": rng.choice([1, 2]), "alloc_limit": 1 << 30}, "sched": gen_sched(rng, 60),
            "pool": [], "prog": [[gen_step(rng, hostile, names) for _ in range(rng.randrange(1, 6))] for _ in range(nt)]}


def size(c):
    return sum(map(len, c["prog"]))


# callables that reach outside the process, block, or take sizes, are exercised by other checks
SKIP = set("""save savez savez_compressed load loadtxt savetxt genfromtxt fromfile tofile dump memmap fromregex DataSource
histogramdd zeros ones empty full eye identity arange linspace logspace geomspace tri indices mgrid ogrid fromfunction vander hamming hanning
blackman bartlett kaiser test show_config set_printoptions resize tril_indices triu_indices diag_indices mask_indices ndindex
fft.fftfreq fft.rfftfreq random setbufsize""".split())


def callables(rp):
    out = []
    for n in sorted(dir(rp)):
        if n.startswith("_") or n in SKIP:
            continue
        o = getattr(rp, n)
        if callable(o) and not isinstance(o, type):
            out.append((n, o))
    for sub in ("linalg", "fft", "char", "emath"):
        m = getattr(rp, sub, None)
        for n in sorted(dir(m)) if m is not None else []:
            if not n.startswith("_") and sub + "." + n not in SKIP and callable(getattr(m, n)):
                out.append((sub + "." + n, getattr(m, n)))
    return out


MSKIP = set("tofile dump resize __array_finalize__ __class__ __init_subclass__ __subclasshook__ __reduce__ __reduce_ex__ __new__ __setattr__ __delattr__ __getattribute__ __dir__ __init__ __sizeof__ __format__".split())


def methods(rp):
    c = type(rp.array([1.0]))
    return [n for n in sorted(dir(c)) if n not in MSKIP]


def mk_index(mk, x):
    if x[0] == "sl":
        return slice(x[1], x[2], x[3])
    if x[0] == "el":
        return Ellipsis
    if x[0] == "t":
        return tuple(mk_index(mk, y) for y in x[1])
    return mk(x)


def touch(np, r, depth=0):
    """Use a result: reading it must be safe too."""
    if isinstance(r, (list, tuple)):
        for y in list(r)[:6]:
            touch(np, y, depth + 1)
    elif hasattr(r, "__array_interface__"):
        try:
            np.array(np.asarray(r)).tobytes()
        except (TypeError, ValueError, BufferError):
            pass
        for g in ("__len__", "__repr__"):
            try:
                getattr(r, g)()
            except Exception:
                pass
            except BaseException as e:
                if not is_panic(e):
                    raise


def show(np, st):
    if st[0] == "call":
        return P.describe(np, st[1:])
    return str(st)[:380]


def one(ctx, st, cache):
    rp, np = ctx.rp, ctx.np
    reg = []

    def mk(a):
        return P.mk_arg(rp, np, a, False, reg)
    kind = st[0]
    name = kind
    try:
        if kind == "call":
            name = st[1]
            f = P.resolve(rp, np, name)
            args, kws = [mk(a) for a in st[2]], {k: mk(v) for k, v in st[3].items()}
            go = lambda: f(*args, **kws)
        elif kind == "any":
            name, f = cache["c"][int(st[1] * len(cache["c"]))]
            args = [mk(a) for a in st[2]]
            go = lambda: f(*args)
        elif kind == "meth":
            o = mk(st[1])
            name = cache["m"][int(st[2] * len(cache["m"]))]
            args = [mk(a) for a in st[3]]
            if not hasattr(o, "__array_interface__"):
                return
            v = getattr(o, name)
            name = "." + name
            go = lambda: v(*args) if callable(v) else v
        else:
            o = mk(st[1])
            ix = mk_index(mk, st[2])
            if not hasattr(o, "__array_interface__"):
                return
            if kind == "get":
                go = lambda: o[ix]
            else:
                val = mk(st[3])
                go = lambda: o.__setitem__(ix, val)
    except (TypeError, ValueError, AttributeError, OverflowError):
        return
    except BaseException as e:
        if not is_panic(e):
            raise
        return
    ctx.note("%s(%s)" % (name, show(np, st)))
    ctx.y(name)
    try:
        r = go()
        touch(np, r)
        ctx.probe("calls accepted")
    except Exception as e:
        ctx.probe("calls refused")
    except BaseException as e:
        if not is_panic(e):
            raise
        ctx.probe("calls refused by panic")
    for h, v in reg:
        touch(np, h)
    ctx.heap_ok()


def run(ctx, case):
    rp, np = ctx.rp, ctx.np
    cache = {"c": callables(rp), "m": methods(rp)}
    n = [0]

    def body(p):
        def g():
            for st in p:
                one(ctx, st, cache)
                n[0] += 1
        return g
    ctx.threads([body(p) for p in case["prog"]])
    ctx.note("afterwards")
    a = rp.array([3.0, 1.0, 2.0])
    ok = [float(x) for x in np.asarray(a + a)] == [6.0, 2.0, 4.0] and float(rp.sum(a)) == 6.0 and [float(x) for x in np.asarray(rp.sort(a))] == [1.0, 2.0, 3.0]
    m = rp.array([[2.0, 0.0], [0.0, 4.0]])
    ok = ok and [float(x) for x in np.asarray(rp.matmul(m, m)).ravel()] == [4.0, 0.0, 0.0, 16.0]
    if not ok:
        ctx.violate("module-unusable-afterwards", str(case["prog"])[:600])
    if n[0]:
        ctx.probe("nontrivial")
