"""Persistence helpers shared by the storage properties."""
from . import arrlib as A

CHUNKS = [[], [], [1], [3], [7, 1, 64], [-1, 5], [1, -1, 2, -1], [64], [4096, 1], [8192, -1, 1, 1], [13, 13, -1], [-1]]

# a file name, the writer and the reader per format
BIN = ["npy", "npy", "npz", "npzc", "raw", "bytes", "pickle", "pickles"]


def gen_chunks(rng):
    if rng.random() < 0.6:
        return rng.choice(CHUNKS)
    return [rng.choice([-1, 1, 2, 3, 5, 8, 17, 64, 100, 511, 512, 1000, 4096, 8191, 8192, 8193]) for _ in range(rng.randrange(1, 12))]


NAMES = ["a", "x", "weights", "w.npy", "data.0", "b_1", "\u00e9t\u00e9", "a b", "arr_9", "file_1", "N" * 70, "x.npy.npy", ".hidden", "UP"]


def gen_names(rng, k):
    out = []
    while len(out) < k:
        n = rng.choice(NAMES)
        if n not in out:
            out.append(n)
    return out


def write(rp, np, fmt, path, arrs, names, npos):
    """arrs: rumpy arrays. npos of them go in positionally in the npz formats."""
    if fmt == "npy":
        rp.save(path, arrs[0])
    elif fmt in ("npz", "npzc"):
        f = rp.savez if fmt == "npz" else rp.savez_compressed
        f(path, *arrs[:npos], **dict(zip(names[npos:], arrs[npos:])))
    elif fmt == "raw":
        arrs[0].tofile(path)
    elif fmt == "pickle":
        arrs[0].dump(path)
    else:
        raise AssertionError(fmt)


def keys(names, npos):
    return ["arr_%d" % i for i in range(npos)] + names[npos:]


def read(rp, np, fmt, path, spec=None):
    """-> list of (key, array)"""
    if fmt == "npy":
        return [("", rp.load(path))]
    if fmt in ("npz", "npzc"):
        d = rp.load(path)
        return [(k, d[k]) for k in d.keys()]
    if fmt == "raw":
        return [("", rp.fromfile(path, dtype=spec))]
    if fmt == "pickle":
        import pickle
        with open(path, "rb") as f:
            return [("", pickle.load(f))]
    raise AssertionError(fmt)


def ext(fmt):
    return {"npy": ".npy", "npz": ".npz", "npzc": ".npz", "raw": ".bin", "pickle": ".pkl"}[fmt]
