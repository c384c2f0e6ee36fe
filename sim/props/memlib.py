"""A world of array handles over shared memory, mirrored step by step by numpy arrays over numpy memory.

Every handle is a pair: the rumpy array (or a numpy array exported from one) and a mirror, a numpy view of the
model's memory with the same shape. Two handles share model memory exactly when the rumpy ones must share memory.
Operations are resolved against the current shapes when they run, from the numbers stored in the case, so any
sub-list of a program is again a valid program.
"""
import random

from ..core import is_panic
from . import arrlib as A

NUM = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128"]
DTS = NUM + ["float64", "float64", "int64", "datetime64[ns]", "datetime64[D]", "U3", "S4"]


class Boom(Exception):
    pass


class H:
    __slots__ = ("r", "n", "ro", "exp", "tag")

    def __init__(self, r, n, ro=False, exp=False, tag=""):
        self.r, self.n, self.ro, self.exp, self.tag = r, n, ro, exp, tag


def scal(rng, d, np):
    """A Python number every handle of this element type can hold exactly, or None."""
    k = d.kind
    if k == "b":
        return rng.choice([True, False])
    if k in "iu":
        ii = np.iinfo(d)
        return int(rng.choice([ii.min, ii.max, 0, 1, ii.max - 1, rng.randint(int(ii.min), int(ii.max))]))
    if k == "f":
        return rng.choice([0.0, -0.0, 1.5, -2.25, float("inf"), float("-inf"), float("nan"), 65504.0, 0.0078125])
    if k == "c":
        return rng.choice([1 - 2j, 0.5, -0.0, complex(float("inf"), 1.0), complex(0.25, -0.5), 3])
    return None


def small(rng, d):
    return float(rng.randrange(0, 2 if d.kind == "b" else 100))


class World:
    def __init__(self, ctx):
        self.ctx, self.rp, self.np = ctx, ctx.rp, ctx.np
        self.H = []
        self.lock_checks = False

    # ------------------------------------------------------------ handles
    def add(self, h):
        if len(self.H) < 14:
            self.H.append(h)

    def pick(self, i, ok=None):
        hs = [h for h in self.H if ok is None or ok(h)]
        return hs[i % len(hs)] if hs else None

    def new(self, spec):
        r, n = A.build(self.rp, self.np, spec)
        if not isinstance(n, self.np.ndarray):
            return
        self.add(H(r, n, ro=any(op[0] == "bcast" for op in spec["chain"]), tag="root"))

    def shares(self, a, b):
        np = self.np
        return np.may_share_memory(np.asarray(a), np.asarray(b))

    def derive(self, h, r, n, must, ro=None, what=""):
        """Add a handle derived from h. must: 'share', 'copy' or 'either'."""
        ctx, np = self.ctx, self.np
        ro = h.ro if ro is None else ro
        nn = np.asarray(r)
        if nn.shape != n.shape or nn.dtype != n.dtype:
            ctx.violate("wrong-shape-or-type", [what, str(nn.dtype), nn.shape, str(n.dtype), n.shape])
        if n.size:
            sh = self.shares(r, h.r)
            if must == "share" and not sh:
                ctx.violate("view-does-not-share", [what, A.brief(np, h.n)])
            if must == "copy" and sh:
                ctx.violate("copy-shares-memory", [what, A.brief(np, h.n)])
            if not sh:
                n, ro = n.copy(), False
            elif must == "either" and not np.shares_memory(n, h.n):
                return
        self.add(H(r, n, ro, tag=what))

    # ------------------------------------------------------------ the invariant
    def check(self, where):
        np = self.np
        for i, h in enumerate(self.H):
            a = h.r if h.exp else np.asarray(h.r)
            if not A.same(np, a, h.n):
                self.ctx.violate("memory-differs-from-model", [where, "handle %d %s" % (i, h.tag), A.brief(np, a, 24), A.brief(np, h.n, 24)])

    def value(self, v, mode):
        """The number itself, or an object that lets other threads run (or raises) while being converted."""
        if mode == 0:
            return v
        ctx, world = self.ctx, self

        class V:
            def __float__(self):
                ctx.y("convert")
                if mode == 2:
                    raise Boom("convert")
                if mode == 3:
                    world.check("during conversion")
                return float(v)
        return V()

    # ------------------------------------------------------------ operations
    def op(self, o):
        """Run one operation on both sides. Anything but the documented outcome is a violation."""
        k, i, seed = o[0], o[1], o[2]
        rng = random.Random(seed)
        if k == "new":
            return self.new(o[3])
        h = self.pick(i)
        if h is None:
            return
        f = getattr(self, "op_" + k)
        try:
            f(h, rng, o)
        except Boom:
            raise
        except Exception as e:
            self.ctx.violate("raised:%s" % type(e).__name__, [k, A.brief(self.np, h.n), str(e)])
        except BaseException as e:
            if self.ctx.viol:
                raise
            self.ctx.violate("panic" if is_panic(e) else "raised:%s" % type(e).__name__, [k, A.brief(self.np, h.n), str(e)])

    def op_drop(self, h, rng, o):
        self.H.remove(h)
        self.ctx.probe("fault:handle dropped")

    def op_view(self, h, rng, o):
        if h.exp:
            return
        np = self.np
        for _ in range(4):
            c = A.gen_chain(rng, np, h.n.shape, 1)
            if c:
                break
        else:
            return
        n = A.apply_view(np, h.n, c[0])
        r = A.apply_view(self.rp, h.r, c[0])
        if not isinstance(n, np.ndarray):
            return
        self.derive(h, r, n, "share", ro=h.ro or c[0][0] == "bcast", what=str(c[0]))

    def op_reshape(self, h, rng, o):
        if h.exp or h.n.size == 0:
            return
        np = self.np
        sz, shape = h.n.size, []
        while sz > 1 and len(shape) < 3:
            ds = [d for d in range(2, sz + 1) if sz % d == 0]
            d = rng.choice(ds)
            shape.append(d)
            sz //= d
        shape.append(sz)
        rng.shuffle(shape)
        arg = list(shape)
        if rng.random() < 0.3:
            arg[rng.randrange(len(arg))] = -1
        n = h.n.reshape(tuple(shape))
        how = rng.randrange(3)
        r = h.r.reshape(*arg) if how == 0 else h.r.reshape(tuple(arg)) if how == 1 else self.rp.reshape(h.r, arg)
        self.derive(h, r, n, "share" if h.n.flags.c_contiguous else "either", what="reshape%s" % (arg,))

    def op_ravel(self, h, rng, o):
        if h.exp:
            return
        n = h.n.reshape(-1)
        r = h.r.ravel() if rng.random() < 0.5 else self.rp.ravel(h.r)
        self.derive(h, r, n, "share" if h.n.flags.c_contiguous else "either", what="ravel")

    def op_copy(self, h, rng, o):
        if h.exp:
            return
        rp, np = self.rp, self.np
        k = rng.randrange(6)
        n = h.n
        if k == 0:
            r = h.r.copy()
        elif k == 1:
            r = rp.copy(h.r)
        elif k == 2:
            r = rp.array(h.r)
        elif k == 3:
            r, n = h.r.flatten(), n.flatten()
        elif k == 4:
            r = h.r.astype(str(h.n.dtype)) if h.n.dtype.kind not in "USM" else h.r.copy()
        else:
            r = rp.array(np.asarray(h.r))
        self.derive(h, r, n.copy(), "copy", ro=False, what="copy%d" % k)

    def op_same(self, h, rng, o):
        """asarray and the like: the array itself, or a copy where that is allowed."""
        if h.exp:
            return
        k = rng.randrange(4)
        if k == 0:
            self.derive(h, self.rp.asarray(h.r), h.n, "share", what="asarray")
        elif k == 1:
            self.derive(h, h.r[...], h.n, "share", what="[...]")
        elif k == 2:
            self.derive(h, self.rp.ascontiguousarray(h.r), h.n[...] if h.n.flags.c_contiguous else h.n.copy(),
                        "share" if h.n.flags.c_contiguous else "copy", ro=h.ro if h.n.flags.c_contiguous else False, what="ascontiguousarray")
        else:
            self.derive(h, h.r[None], h.n[None], "share", what="[None]")

    def op_split(self, h, rng, o):
        if h.exp or h.n.ndim == 0 or h.n.size == 0:
            return
        ax = rng.randrange(h.n.ndim)
        k = rng.randrange(1, 4)
        rs = self.rp.array_split(h.r, k, axis=ax)
        ns = self.np.array_split(h.n, k, axis=ax)
        j = rng.randrange(k)
        self.derive(h, rs[j], ns[j], "share", what="array_split")

    def op_diagonal(self, h, rng, o):
        if h.exp or h.n.ndim != 2 or min(h.n.shape) == 0:
            return
        n = self.np.diagonal(h.n)
        b = self.np.lib.stride_tricks.as_strided(h.n, n.shape, n.strides)
        self.derive(h, h.r.diagonal(), b, "share", what="diagonal")

    def op_fancy(self, h, rng, o):
        if h.exp or h.n.ndim == 0 or h.n.size == 0:
            return
        m = h.n.shape[0]
        if rng.random() < 0.5:
            idx = [rng.randrange(-m, m) for _ in range(rng.randrange(0, 5))]
            r = h.r[idx] if rng.random() < 0.5 else h.r[self.rp.array(self.np.array(idx, dtype="int64"))]
            n = h.n[self.np.array(idx, dtype="int64")]
        else:
            mask = self.np.array([rng.random() < 0.5 for _ in range(h.n.size)], dtype=bool).reshape(h.n.shape)
            r, n = h.r[self.rp.array(mask)], h.n[mask]
        self.derive(h, r, n, "copy", ro=False, what="fancy")

    def op_export(self, h, rng, o):
        if h.exp:
            return
        e = self.np.asarray(h.r)
        self.add(H(e, h.n, h.ro, exp=True, tag="export"))
        self.ctx.probe("memory exported")

    def op_import(self, h, rng, o):
        if not h.exp:
            return
        r = self.rp.asarray(h.r)
        self.derive(h, r, h.n, "either", what="import")

    def target(self, h, rng):
        """A sub-view to write to, as (rumpy index or None, mirror view)."""
        if h.n.ndim and rng.random() < 0.75:
            items = [x for x in A.gen_index(rng, h.n.shape) if x[0] not in 'ne']
            key = A.mk_index(items)
            t = h.n[(key if isinstance(key, tuple) else (key,)) + (Ellipsis,)]
            return key, t
        return (slice(None) if h.n.ndim else ()), h.n[...]

    def op_set(self, h, rng, o):
        np = self.np
        if h.ro or h.n.ndim == 0:
            return
        key, t = self.target(h, rng)
        v = scal(rng, h.n.dtype, np)
        if v is None:
            return
        mode = rng.choice([0, 0, 0, 1, 1, 2, 3]) if h.n.dtype.kind in "biuf" else 0
        if mode:
            v = small(rng, h.n.dtype)
        if h.exp:
            if mode == 0:
                h.r[key] = v
                t[...] = v
            return
        try:
            h.r[key] = self.value(v, mode)
        except Boom:
            if mode != 2:
                raise
            self.ctx.probe("fault:conversion raised")
            return
        if mode == 2:
            self.ctx.violate("exception-swallowed", "assignment of a value whose conversion raises succeeded")
        t[...] = v

    def op_assign(self, h, rng, o):
        """Assign one handle's elements to another's, overlapping or not."""
        np = self.np
        if h.ro or h.n.ndim == 0 or h.n.size == 0:
            return
        s = self.pick(rng.randrange(100), lambda x: x.n.dtype == h.n.dtype and not x.exp and x.n.size)
        if s is None or h.exp:
            return
        if rng.random() < 0.5:
            s = h
        dn, sn = h.n, s.n
        key, t = self.target(h, rng)
        nd = t.ndim
        if t.size == 0:
            return
        srcs = []
        x, xr = sn, s.r
        if rng.random() < 0.5 and sn.ndim == h.n.ndim and isinstance(key, slice):
            items = [["s", None, None, rng.choice([-1, 1])]] + [["s", None, None, rng.choice([-1, 1, 1])] for _ in range(sn.ndim - 1)]
            k2 = A.mk_index(items)
            x, xr = sn[k2], s.r[k2]
        if x.ndim == nd:
            common = tuple(min(a, b) for a, b in zip(x.shape, t.shape))
            off = [rng.randrange(a - c + 1) for a, c in zip(x.shape, common)]
            k3 = tuple(slice(f, f + c) for f, c in zip(off, common))
            if nd:
                x, xr = x[k3], xr[k3]
                off = [rng.randrange(a - c + 1) for a, c in zip(t.shape, common)]
                k4 = tuple(slice(f, f + c) for f, c in zip(off, common))
                hr = h.r[key]
                t = t[k4]
                if t.size == 0:
                    return
                hr[k4] = xr
                t[...] = x.copy()
                return
        if not A.prod(x.shape):
            return
        try:
            np.broadcast_to(x, t.shape)
        except ValueError:
            return
        h.r[key] = xr
        t[...] = x.copy()

    def op_fill(self, h, rng, o):
        v = scal(rng, h.n.dtype, self.np)
        if h.ro or v is None:
            return
        if h.n.dtype.kind in "iu":
            v = rng.randrange(0, 100)
        h.r.fill(v)
        h.n.fill(v)

    def op_put(self, h, rng, o):
        np = self.np
        if h.ro or h.n.size == 0 or h.exp or h.n.dtype.kind not in "biufc":
            return
        idx = [rng.randrange(-h.n.size, h.n.size) for _ in range(rng.randrange(1, 5))]
        vals = [small(rng, h.n.dtype) for _ in range(rng.randrange(1, 5))]
        mode = rng.choice([0, 0, 1, 2])
        vv = [self.value(v, mode if j == len(vals) - 1 else 0) for j, v in enumerate(vals)]
        bad = mode == 0 and rng.random() < 0.15
        if bad:
            idx.append(h.n.size + rng.randrange(3))
        try:
            if rng.random() < 0.5:
                h.r.put(idx, vv)
            else:
                self.rp.put(h.r, idx, vv)
        except Boom:
            if mode != 2:
                raise
            self.ctx.probe("fault:conversion raised")
            return
        except IndexError:
            if not bad:
                raise
            self.ctx.probe("fault:index refused")
            return
        except TypeError:
            if mode != 2:
                raise
            self.ctx.probe("fault:conversion raised")
            return
        if mode == 2 or bad:
            self.ctx.violate("exception-swallowed", ["put", idx, vals])
        h.n.put(idx, np.array(vals).astype(h.n.dtype))

    def op_copyto(self, h, rng, o):
        np, rp = self.np, self.rp
        if h.ro or h.exp or h.n.size == 0:
            return
        s = self.pick(rng.randrange(100), lambda x: x.n.dtype == h.n.dtype and not x.exp)
        if s is None:
            return
        try:
            b = np.broadcast_to(s.n, h.n.shape)
        except ValueError:
            s = h
            b = h.n
        sr = s.r
        if s is h and h.n.ndim:
            sr, b = rp.flip(h.r, 0), np.flip(h.n, 0)
        if rng.random() < 0.5:
            mask = np.array([rng.random() < 0.5 for _ in range(h.n.size)], dtype=bool).reshape(h.n.shape)
            rp.copyto(h.r, sr, where=rp.array(mask))
            np.copyto(h.n, b.copy(), where=mask)
        else:
            rp.copyto(h.r, sr)
            np.copyto(h.n, b.copy())

    def op_masked(self, h, rng, o):
        np, rp = self.np, self.rp
        if h.ro or h.exp or h.n.size == 0:
            return
        mask = np.array([rng.random() < 0.5 for _ in range(h.n.size)], dtype=bool).reshape(h.n.shape)
        s = self.pick(rng.randrange(100), lambda x: x.n.dtype == h.n.dtype and not x.exp and x.n.size)
        if s is None:
            return
        vals = s.n.copy()
        if rng.random() < 0.5:
            rp.place(h.r, rp.array(mask), s.r)
            if mask.any():
                np.place(h.n, mask, vals.ravel())
        else:
            rp.putmask(h.r, rp.array(mask), s.r)
            np.putmask(h.n, mask, vals.ravel())

    def op_diag(self, h, rng, o):
        if h.ro or h.exp or h.n.ndim < 2 or h.n.size == 0 or h.n.dtype.kind not in "biufc":
            return
        if h.n.ndim > 2 and len(set(h.n.shape)) > 1:
            return
        v = small(rng, h.n.dtype)
        self.rp.fill_diagonal(h.r, v)
        self.np.fill_diagonal(h.n, v)

    def op_along(self, h, rng, o):
        np, rp = self.np, self.rp
        if h.ro or h.exp or h.n.ndim == 0 or h.n.size == 0 or h.n.dtype.kind not in "biufcM":
            return
        ax = rng.randrange(h.n.ndim)
        sh = list(h.n.shape)
        sh[ax] = rng.randrange(1, 4)
        m = h.n.shape[ax]
        if A.prod(sh) > 200:
            return
        idx = np.array([rng.randrange(m) for _ in range(A.prod(sh))], dtype="int64").reshape(sh)
        bad = rng.random() < 0.15
        if bad:
            idx.flat[idx.size - 1] = m + rng.randrange(4)
        src = self.pick(rng.randrange(50), lambda x: x.n.dtype == h.n.dtype and x.n.size)
        vals = np.resize(src.n.copy(), sh)
        try:
            rp.put_along_axis(h.r, rp.array(idx), rp.array(vals), ax)
        except (ValueError, IndexError):
            if not bad:
                raise
            self.ctx.probe("fault:index refused")
            return
        if bad:
            self.ctx.violate("exception-swallowed", ["put_along_axis", idx.tolist()])
        np.put_along_axis(h.n, idx, vals, ax)

    def rows(self, a):
        np = self.np
        a = np.ascontiguousarray(a)
        return sorted(x.tobytes() for x in a)

    def op_sort(self, h, rng, o):
        np = self.np
        if h.ro or h.exp or h.n.ndim == 0:
            return
        d = h.n.dtype
        if d.kind == "c" and np.isnan(h.n).any() or d.kind == "M" and np.isnat(h.n).any() or d.kind in "US":
            return
        ax = rng.randrange(-h.n.ndim, h.n.ndim)
        old = h.n.copy()
        h.r.sort(axis=ax)
        got = np.asarray(h.r).copy()
        exp = np.sort(old, axis=ax)
        eq = (got == exp) | ((got != got) & (exp != exp))
        if got.shape != exp.shape or not eq.all() or sorted(x.tobytes() for x in got.ravel()) != sorted(x.tobytes() for x in old.ravel()):
            self.ctx.violate("sort-wrong", [ax, A.brief(np, got), A.brief(np, exp)])
        h.n[...] = got

    def op_partition(self, h, rng, o):
        np = self.np
        if h.ro or h.exp or h.n.ndim != 1 or h.n.size == 0 or h.n.dtype.kind in "USMc":
            return
        k = rng.randrange(h.n.size)
        old = h.n.copy()
        h.r.partition(k)
        got = np.asarray(h.r).copy()
        exp = np.sort(old)
        good = self.rows(got) == self.rows(old)
        if good:
            if got[k] == got[k]:
                good = got[k] == exp[k] and not (got[:k] > got[k]).any() and not (got[k + 1:] < got[k]).any()
            else:
                good = exp[k] != exp[k]
        if not good:
            self.ctx.violate("partition-wrong", [k, A.brief(np, got), A.brief(np, old)])
        h.n[...] = got

    def op_shuffle(self, h, rng, o):
        np = self.np
        if h.ro or h.exp or h.n.ndim == 0:
            return
        old = h.n.copy()
        self.rp.random.default_rng(rng.randrange(1000)).shuffle(h.r)
        got = np.asarray(h.r).copy()
        if self.rows(got) != self.rows(old):
            self.ctx.violate("shuffle-wrong", [A.brief(np, got), A.brief(np, old)])
        h.n[...] = got

    def op_read(self, h, rng, o):
        np = self.np
        if h.exp or h.n.size == 0 or h.n.ndim == 0:
            return
        k = rng.randrange(4)
        d = h.n.dtype
        key = tuple(rng.randrange(-s, s) for s in h.n.shape)
        if k == 0:
            if d.kind in "USM":
                return
            v, e = h.r[key], h.n[key].item()
            if not (v == e or (v != v and e != e)):
                self.ctx.violate("read-wrong", [list(key), repr(v), repr(e)])
        elif k == 1:
            if h.r.tobytes() != h.n.tobytes():
                self.ctx.violate("tobytes-wrong", [A.brief(np, h.n)])
        elif k == 2:
            if d.kind in "USMc" or d.kind in "iu" and d.itemsize == 8:
                return
            got, e = list(h.r.flat), [float(x) for x in h.n.flat]
            if not all(a == b or (a != a and b != b) for a, b in zip(got, e)) or len(got) != len(e):
                self.ctx.violate("flat-wrong", [got[:10], e[:10]])
        else:
            sub = h.r[key[0]]
            if not A.same(np, np.asarray(sub), h.n[key[0], ...]):
                self.ctx.violate("read-wrong", [key[0], A.brief(np, sub), A.brief(np, h.n[key[0]])])


VIEWS = ["view"] * 6 + ["reshape", "reshape", "ravel", "same", "split", "diagonal", "export", "export", "copy", "copy", "import", "fancy"]
WRITES = ["set"] * 4 + ["assign"] * 4 + ["fill", "put", "put", "copyto", "copyto", "masked", "masked", "diag", "along", "sort", "partition", "shuffle"]


def gen_new(rng, np, dts=DTS, chain=1, maxn=60):
    s = A.gen_arr(rng, np, dts, maxn=maxn, chain=chain)
    return ["new", 0, 0, s]


def gen_prog(rng, np, n, dts=DTS, w=(0.4, 0.4, 0.08, 0.12)):
    p = []
    for _ in range(n):
        x = rng.random()
        i, s = rng.randrange(1000), rng.randrange(10 ** 6)
        if x < w[0]:
            p.append([rng.choice(VIEWS), i, s])
        elif x < w[0] + w[1]:
            p.append([rng.choice(WRITES), i, s])
        elif x < w[0] + w[1] + w[2]:
            p.append(["drop", i, s])
        elif rng.random() < 0.75:
            p.append(["read", i, s])
        else:
            p.append(gen_new(rng, np, dts))
    return p
