"""The simulator: one case = one exactly repeatable execution in a forked child.

A case is plain JSON. Everything nondeterministic is in it: the programs of the simulated
threads, the schedule (list of small integers consumed one per scheduling decision), the
fault plan, the clock, the entropy stream, the thread-pool decisions and the allocator layout.
"""
import ctypes
import gc
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time
import traceback

STATS = ("switches yields reads writes opens short_io eintr io_errors crash_points allocs alloc_failures "
         "clock_reads entropy_reads futex_waits pool_choices pool_steals gil_releases early_eof frees open_errors "
         "seek_errors stat_errors closes native_threads fenced_allocs futex_blocks pool_reorders misc syncs renames").split()
K = {k: i for i, k in enumerate("open read write seek stat close sync rename".split())}
A = {k: i for i, k in enumerate("err short eintr crash eof close_err".split())}
EXIT_DEADLOCK, EXIT_CRASHPOINT, EXIT_HARNESS = 77, 78, 79
CHILD_TIMEOUT = 60


class Env:
    """The process that hosts the real extension with its imports patched to the seams."""

    def __init__(self, out):
        self.L = L = ctypes.CDLL(os.path.join(out, "libsim.so"), mode=ctypes.RTLD_GLOBAL)
        L.sim_shared.restype = ctypes.c_void_p
        for f in ("sim_stat", "sim_loglen"):
            getattr(L, f).restype = ctypes.c_uint64
        for f in ("sim_live_bytes", "sim_live_blocks", "sim_alloc_seen", "sim_blk_size", "sim_clock_elapsed"):
            getattr(L, f).restype = ctypes.c_int64
        for f in ("sim_note", "sim_heap_error"):
            getattr(L, f).restype = ctypes.c_char_p
        L.sim_logbuf.restype = ctypes.c_void_p
        L.sim_blk_size.argtypes = [ctypes.c_void_p]
        L.sim_in_live_block.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        L.sim_alloc_fail.argtypes = [ctypes.c_size_t, ctypes.c_long, ctypes.c_long]
        L.sim_alloc_limit.argtypes = [ctypes.c_size_t]
        L.sim_disk_cap.argtypes = [ctypes.c_int64]
        L.sim_entropy_set.argtypes = [ctypes.c_int, ctypes.c_uint64]
        assert L.sim_shared()
        sys.path.insert(0, out)
        import numpy
        import rumpy
        assert os.path.dirname(os.path.abspath(rumpy.__file__)) == out, rumpy.__file__
        self.np, self.rp = numpy, rumpy
        n = L.sim_patch(os.path.join(out, "rumpy.so").encode())
        need = ["malloc", "free", "realloc", "open64", "read", "write", "close", "clock_gettime", "syscall"]
        missing = [x for x in need if L.sim_hook_count(x.encode()) < 1]
        if n < 15 or missing:
            raise RuntimeError("import patching found %d slots, missing %s" % (n, missing))
        warm(rumpy, numpy)

    def log_text(self):
        n = self.L.sim_loglen()
        return ctypes.string_at(self.L.sim_logbuf(), n)


def warm(rp, np):
    """Touch lazily initialised state once so that it belongs to no case."""
    x = rp.arange(6).reshape((2, 3))
    y = (x + x) * 2
    y.sum()
    np.asarray(y)
    rp.array(np.zeros(3))
    x[0:1]
    rp.random.default_rng(1).random(3)
    rp.linalg.inv(rp.eye(3))
    rp.fft.fft(rp.ones(8))
    str(x)
    rp.einsum("ij->i", x)


class Violation(Exception):
    pass


class Ctx:
    """What a property module sees inside the child."""

    def __init__(self, env, case, scratch):
        self.env, self.L, self.rp, self.np, self.case = env, env.L, env.rp, env.np, case
        self.scratch = scratch
        self.viol = []
        self.probes = {}
        self.hist = []
        self._setup()

    def _setup(self):
        L, k = self.L, self.case.get("knobs", {})
        b = bytes(x & 255 for x in self.case.get("sched", []))
        L.sim_sched_set(b, len(b))
        L.sim_disk_reset()
        L.sim_disk_root(self.scratch.encode())
        for f in self.case.get("faults", []):
            L.sim_fault_add(K[f["call"]], f["n"], A[f["do"]], f.get("arg", 0))
        self.set_chunks(self.case.get("chunks", []))
        clk = self.case.get("clock")
        if clk:
            arr = (ctypes.c_int64 * len(clk))(*clk)
            L.sim_clock_set(arr, len(clk))
        ent = self.case.get("entropy")
        if ent:
            L.sim_entropy_set(ent[0], ent[1])
        p = bytes(x & 255 for x in self.case.get("pool", []))
        L.sim_pool_set(k.get("pool_threads", 1), p, len(p))
        L.sim_alloc_config(k.get("alloc", 1))
        af = k.get("alloc_fail")
        if af:
            L.sim_alloc_fail(*af)
        L.sim_alloc_limit(k.get("alloc_limit", 1 << 32))
        if k.get("disk_cap") is not None:
            L.sim_disk_cap(k["disk_cap"])

    def set_chunks(self, ch):
        arr = (ctypes.c_int32 * max(1, len(ch)))(*ch)
        self.L.sim_chunks_set(arr, len(ch))

    def calm(self):
        """Faults stop here: no more injected I/O faults, short transfers or refused memory."""
        self.L.sim_disk_reset()
        self.L.sim_alloc_fail(0, -1, 1)

    def violate(self, sig, detail=""):
        self.viol.append({"sig": sig, "detail": str(detail)[:1500]})
        raise Violation(sig)

    def soft(self, sig, detail=""):
        self.viol.append({"sig": sig, "detail": str(detail)[:1500]})

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, s):
        self.L.sim_log(s.encode("utf-8", "replace")[:200])

    def note(self, s):
        self.L.sim_set_note(s.encode("utf-8", "replace")[:400])

    def y(self, tag="op"):
        """A scheduling point: the simulator decides who runs next."""
        self.L.sim_yield(tag.encode())

    def path(self, name):
        return os.path.join(self.scratch, name)

    def threads(self, bodies):
        """Run the bodies as simulated caller threads; only one runs at a time, chosen by the schedule."""
        n = len(bodies)
        L = self.L
        L.sim_threads_init(n)
        errs = [None] * n

        def main(i, body):
            L.sim_thread_enter(i)
            try:
                body()
            except Violation:
                pass
            except BaseException as e:  # noqa
                errs[i] = e
            finally:
                L.sim_thread_exit()

        base = len(os.listdir("/proc/self/task"))
        ts = [threading.Thread(target=main, args=(i, b)) for i, b in enumerate(bodies)]
        for t in ts:
            t.start()
        L.sim_run()
        for t in ts:
            t.join()
        # a joined Python thread may still be running thread-local destructors: wait until it is gone
        t_end = time.monotonic() + 2
        while len(os.listdir("/proc/self/task")) > base and time.monotonic() < t_end:
            time.sleep(0)
        for e in errs:
            if e is not None:
                raise e
        if self.viol:
            raise Violation("thread")

    def heap_ok(self):
        self.L.sim_heap_check()
        he = self.L.sim_heap_error()
        if he:
            self.violate("memory-corruption", he.decode())


def is_panic(e):
    return type(e).__name__ == "PanicException"


def exc_name(e):
    return type(e).__name__


# --------------------------------------------------------------------------- one run in a forked child

def run_case(env, mod, case, scratch_base, timeout=CHILD_TIMEOUT, want_log=False):
    """Returns dict(viol=[...], probes, stats, digest, sched_used, dur). Never raises for child deaths."""
    L = env.L
    L.sim_shared_reset()
    scratch = tempfile.mkdtemp(prefix="r", dir=scratch_base)
    r, w = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            nul = os.open("/dev/null", os.O_WRONLY)
            os.dup2(nul, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = {}
            ctx = Ctx(env, case, scratch + "/")
            try:
                mod.run(ctx, case)
            except Violation:
                pass
            except BaseException as e:  # a harness error, never a verdict
                if hasattr(e, "sim_violation"):
                    ctx.viol.append({"sig": e.sim_violation, "detail": str(e)[:600]})
                else:
                    out["harness"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-1800:])
            if not ctx.viol and "harness" not in out:
                L.sim_heap_check()
                he = L.sim_heap_error()
                if he:
                    ctx.viol.append({"sig": "memory-corruption", "detail": he.decode()})
            out.update(viol=ctx.viol, probes=ctx.probes, sched_used=L.sim_sched_used(),
                       simt=L.sim_clock_elapsed(), hist=ctx.hist[-40:],
                       fired=[L.sim_fault_fired(i) for i in range(len(case.get("faults", [])))])
            data = json.dumps(out).encode()
            os.write(w, struct.pack("<I", len(data)))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = EXIT_HARNESS
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    dur = time.monotonic() - t0
    log = env.log_text()
    stats = [L.sim_stat(i) for i in range(len(STATS))]
    res = {"viol": [], "probes": {}, "sched_used": 0, "simt": 0, "fired": [], "hist": []}
    if len(buf) >= 4:
        n = struct.unpack("<I", buf[:4])[0]
        if len(buf) >= 4 + n:
            res.update(json.loads(buf[4:4 + n]))
            got = True
        else:
            got = False
    else:
        got = False
    note = (L.sim_note() or b"").decode("utf-8", "replace")
    if not got:
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            if s == signal.SIGALRM:
                res["viol"] = [{"sig": "hang", "detail": "no progress within %d s; %s" % (timeout, note)}]
            else:
                res["viol"] = [{"sig": "process-died:%s" % signal.Signals(s).name, "detail": note}]
            if s == signal.SIGABRT and getattr(mod, "OOM_OK", False) and b"F alloc-limit" in log[-400:]:
                # Rust ends the process when memory runs out: the request itself was beyond the simulated host
                res["viol"], res["probes"] = [], {"fault:memory exhausted": 1}
            he = (L.sim_heap_error() or b"").decode()
            if he and res["viol"]:
                res["viol"][0]["detail"] += "; " + he
        else:
            code = os.WEXITSTATUS(st)
            if code == EXIT_DEADLOCK:
                res["viol"] = [{"sig": "deadlock", "detail": note}]
            elif code == EXIT_CRASHPOINT:
                res["crashpoint"] = True
            elif getattr(mod, "OOM_OK", False) and note.endswith("too many live blocks"):
                res["probes"] = {"fault:memory exhausted": 1}   # the request itself was beyond the simulated host
            else:
                res["harness"] = "child exit %d, %s" % (code, note)
    if res.get("crashpoint") and hasattr(mod, "after_crash"):
        # the process died at an injected crash point; only the disk survives
        res2 = run_after_crash(env, mod, case, scratch, timeout)
        for k in ("viol", "harness", "hist"):
            if res2.get(k):
                res[k] = res2[k]
        for k, v in res2.get("probes", {}).items():
            res["probes"][k] = res["probes"].get(k, 0) + v
        res["simt"] += res2.get("simt", 0)
    if getattr(mod, "NOTE_SIG", False):
        for v in res["viol"]:
            if v["sig"].startswith(("process-died", "memory-corruption", "hang")):
                v["sig"] += ":" + note.split("(")[0]
                if note not in str(v["detail"]):
                    v["detail"] = "%s; %s" % (v["detail"], note)
    shutil.rmtree(scratch, ignore_errors=True)
    res["digest"] = hashlib.sha1(log + json.dumps([res["viol"], res["hist"]], sort_keys=True).encode()).hexdigest()
    sw = [x for x in log.split(b"\n") if x.startswith(b"S ")]
    res["inter"] = hashlib.sha1(b"\n".join(sw)).hexdigest()[:16] if sw else ""
    res["stats"] = stats
    res["dur"] = dur
    if want_log:
        res["log"] = log.decode("utf-8", "replace")
    return res


def run_after_crash(env, mod, case, scratch, timeout):
    class Shim:
        run = staticmethod(lambda ctx, c: mod.after_crash(ctx, c))
    case2 = dict(case, faults=[], chunks=[], sched=[])
    L = env.L
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            nul = os.open("/dev/null", os.O_WRONLY)
            os.dup2(nul, 2)
            out = {}
            ctx = Ctx(env, case2, scratch + "/")
            try:
                mod.after_crash(ctx, case)
            except Violation:
                pass
            except BaseException as e:
                out["harness"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-1800:])
            out.update(viol=ctx.viol, probes=ctx.probes, simt=L.sim_clock_elapsed(), hist=ctx.hist[-40:])
            data = json.dumps(out).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = EXIT_HARNESS
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf:
        try:
            return json.loads(buf)
        except ValueError:
            pass
    note = (L.sim_note() or b"").decode("utf-8", "replace")
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return {"viol": [{"sig": "hang" if s == signal.SIGALRM else "process-died:%s" % signal.Signals(s).name,
                          "detail": "while reading back after the crash; " + note}]}
    if os.WEXITSTATUS(st) == EXIT_DEADLOCK:
        return {"viol": [{"sig": "deadlock", "detail": note}]}
    return {"harness": "after-crash child exit %d" % os.WEXITSTATUS(st)}


# --------------------------------------------------------------------------- seeds, schedules

def case_rng(seed, prop, i):
    h = hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def gen_sched(rng, n=400):
    """A schedule: mostly 'keep running' with seeded bursts of preemption; density varies per run."""
    p = rng.choice([0.0, 0.05, 0.15, 0.4, 0.8, 1.0])
    return [rng.randrange(1, 8) if rng.random() < p else 0 for _ in range(n)]


# --------------------------------------------------------------------------- minimisation

def _get(case, path):
    x = case
    for p in path:
        x = x[p]
    return x


def _with(case, path, val):
    c = json.loads(json.dumps(case))
    x = c
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = val
    return c


def expand_paths(case, spec):
    """'prog/*' -> every list under case['prog']."""
    outs = [[]]
    for part in spec.split("/"):
        nxt = []
        for p in outs:
            try:
                x = _get(case, p)
            except (KeyError, IndexError, TypeError):
                continue
            if part == "*":
                if isinstance(x, list):
                    nxt += [p + [i] for i in range(len(x))]
            elif isinstance(x, dict) and part in x:
                nxt.append(p + [part])
        outs = nxt
    return outs


def shrink(mod, case, fails, budget_s=60, max_tries=400):
    t0 = time.monotonic()
    tries = 0

    def ok(c):
        nonlocal tries
        tries += 1
        return fails(c)

    def left():
        return time.monotonic() - t0 < budget_s and tries < max_tries

    # schedule first: cut the tail, then zero decisions
    s = list(case.get("sched", []))
    while s and s[-1] == 0:
        s.pop()
    if s != case.get("sched", []) and s is not None and "sched" in case:
        c = dict(case, sched=s)
        if ok(c):
            case = c
    for cand in ([],):
        if case.get("sched") and left():
            c = dict(case, sched=cand)
            if ok(c):
                case = c
    changed = True
    while changed and left():
        changed = False
        for spec in getattr(mod, "SHRINK", ["prog", "prog/*", "faults", "chunks"]) + ["sched"]:
            for path in expand_paths(case, spec):
                try:
                    lst = _get(case, path)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(lst, list) or not lst:
                    continue
                size = max(1, len(lst) // 2)
                while size >= 1 and left():
                    i = 0
                    while i < len(lst) and left():
                        if spec == "sched":
                            new = lst[:i] + [0] * min(size, len(lst) - i) + lst[i + size:]
                            if new == lst:
                                i += size
                                continue
                        else:
                            new = lst[:i] + lst[i + size:]
                        c = _with(case, path, new)
                        if ok(c):
                            case, lst, changed = c, new, True
                            if spec == "sched":
                                i += size
                        else:
                            i += size
                    size //= 2
        for c in (mod.simplify(case) if hasattr(mod, "simplify") else ()):
            if not left():
                break
            if ok(c):
                case, changed = c, True
                break
    s = list(case.get("sched", []))
    while s and s[-1] == 0:
        s.pop()
    if "sched" in case and s != case["sched"]:
        c = dict(case, sched=s)
        if ok(c):
            case = c
    return case, tries
