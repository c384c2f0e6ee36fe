"""check driver:  python -m sim.main <PROPERTY> [--runs N] [--replay FILE] [--selftest N]"""
import argparse
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python"
ENVV = {
    "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
    "NPY_DISABLE_CPU_FEATURES": "AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR",
    "RUST_BACKTRACE": "0", "LC_ALL": "C.UTF-8",
}


def reexec():
    if os.environ.get("SIM_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(ENVV)
    if os.environ.get("SIM_HASHSEED"):
        env["PYTHONHASHSEED"] = os.environ["SIM_HASHSEED"]
    env["SIM_CHILD"] = "1"
    for k in ("PYTHONPATH", "PYTHONHOME", "LD_PRELOAD", "RAYON_NUM_THREADS"):
        env.pop(k, None)
    os.chdir(VERIF)
    os.execve(PY, [PY, "-m", "sim.main"] + sys.argv[1:], env)


def scratch_base():
    """One scratch directory per check, removed when the check ends, also when it is told to stop."""
    import atexit
    base = tempfile.mkdtemp(prefix="vsim-", dir="/tmp")
    me = os.getpid()

    def clean():
        if os.getpid() == me:
            shutil.rmtree(base, ignore_errors=True)

    atexit.register(clean)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
    return base


def prepare(mod, env):
    if hasattr(mod, "prepare"):
        mod.prepare(env)


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def worker(wid, nw, mod, prop, seed, first, total, deadline, out, wfd, base0):
    from . import core
    import gc
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    env = core.Env(out)
    prepare(mod, env)
    base = tempfile.mkdtemp(prefix="w", dir=base0)
    gc.collect()
    gc.disable()
    gc.freeze()
    tier = os.environ.get("VERIF_TIER", "quick")
    f = os.fdopen(wfd, "w", buffering=1)
    n = 0
    directed = list(mod.directed()) if hasattr(mod, "directed") else []
    try:
        i = first + wid
        while i < first + total:
            if time.monotonic() > deadline:
                break
            if i - first < len(directed):
                case = json.loads(json.dumps(directed[i - first]))
            else:
                case = mod.gen(core.case_rng(seed, prop, i), tier)
                case = json.loads(json.dumps(case))
            res = core.run_case(env, mod, case, base)
            rec = {"i": i, "viol": res["viol"], "digest": res["digest"], "inter": res["inter"], "stats": res["stats"],
                   "probes": res["probes"], "dur": res["dur"], "simt": res["simt"], "ops": mod.size(case) if hasattr(mod, "size") else 1,
                   "cd": hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]}
            if res.get("harness"):
                rec["harness"] = res["harness"]
            if res["viol"] or rec.get("harness"):
                rec["case"] = case
            f.write(json.dumps(rec) + "\n")
            n += 1
            i += nw
        f.write(json.dumps({"done": wid, "n": n}) + "\n")
    finally:
        shutil.rmtree(base, ignore_errors=True)
        f.flush()
    os._exit(0)


def main():
    reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--show", type=int, help="generate and print case number N, then run it")
    ap.add_argument("--noshrink", action="store_true")
    ap.add_argument("--all", action="store_true", help="list every distinct violation instead of stopping early")
    a = ap.parse_args()
    from . import build as b
    t_start = time.monotonic()
    out = b.build()
    t_built = time.monotonic()
    mod = load(a.prop)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    from . import core

    if a.replay or a.show is not None:
        env = core.Env(out)
        prepare(mod, env)
        base = scratch_base()
        try:
            if a.replay:
                rp = json.load(open(a.replay))
                case, want = rp["case"], rp.get("sig")
            else:
                d = list(mod.directed()) if hasattr(mod, "directed") else []
                case = d[a.show] if a.show < len(d) else mod.gen(core.case_rng(seed, prop, a.show), tier)
                case, want = json.loads(json.dumps(case)), None
                print(json.dumps(case))
            res = core.run_case(env, mod, case, base, want_log=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if a.show is not None or os.environ.get("SIM_VERBOSE"):
            print(res["log"])
            print(json.dumps({k: v for k, v in res.items() if k != "log"}, indent=1))
        for v in res["viol"]:
            print("  %s: %s" % (v["sig"], v["detail"]))
        print("digest", res["digest"])
        if res.get("harness"):
            print(res["harness"])
            sys.exit(3)
        if res["viol"]:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay or "-"))
            sys.exit(1)
        sys.exit(0)

    total = a.runs or mod.RUNS[tier]
    limit = a.seconds or mod.SECONDS[tier]
    deadline = time.monotonic() + limit
    nw = max(1, a.workers)
    base0 = scratch_base()
    fds, pids = [], []
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q in fds:
                os.close(q)
            try:
                worker(w, nw, mod, prop, seed, a.first, total, deadline, out, wfd, base0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
        os.close(wfd)
        fds.append(r)
        pids.append(pid)
    recs, bufs, done = [], {fd: b"" for fd in fds}, 0
    open_fds = set(fds)
    stop_early = False
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in rl:
            c = os.read(fd, 1 << 20)
            if not c:
                open_fds.discard(fd)
                continue
            bufs[fd] += c
            *lines, bufs[fd] = bufs[fd].split(b"\n")
            for ln in lines:
                rec = json.loads(ln)
                if "done" in rec:
                    done += 1
                else:
                    recs.append(rec)
        bad = sum(1 for x in recs if x["viol"])
        if not a.all and bad >= 24 and not stop_early:
            stop_early = True
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except OSError:
                    pass
    for p in pids:
        os.waitpid(p, 0)
    wall = time.monotonic() - t_built
    recs.sort(key=lambda x: x["i"])
    if a.digests:
        with open(a.digests, "w") as fh:
            for x in recs:
                fh.write("%d %s %s\n" % (x["i"], x["digest"], x["inter"]))
    harness = [x for x in recs if x.get("harness")]
    viols = [x for x in recs if x["viol"]]
    if not stop_early and done != nw:
        sys.stderr.write("a worker died: %d of %d finished\n" % (done, nw))
        if not viols:
            sys.exit(3)
    if harness and not viols:
        sys.stderr.write("harness error in run %d: %s\n" % (harness[0]["i"], harness[0]["harness"]))
        sys.stderr.write(json.dumps(harness[0]["case"])[:3000] + "\n")
        sys.exit(3)

    env = core.Env(out)
    prepare(mod, env)
    base = tempfile.mkdtemp(prefix="m", dir=base0)
    rc, reported, unrepro, kf_lines, shrink_tries = 0, [], 0, [], 0
    try:
        # listed findings: each is one specific case; it is reported and never counted as a violation
        for e in known(prop):
            res = core.run_case(env, mod, e["case"], base)
            sigs = [v["sig"] for v in res["viol"]]
            if e["sig"] in sigs:
                print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
                kf_lines.append(e["what"])
            elif sigs:
                viols.append({"i": -1, "viol": res["viol"], "case": e["case"]})
        seen = set()
        for x in viols:
            sig = x["viol"][0]["sig"]
            if sig in seen:
                continue
            if len(reported) >= (40 if a.all else 3) or (time.monotonic() - t_built > limit + 200):
                break
            seen.add(sig)
            case = x["case"]
            tmo = 2 * core.CHILD_TIMEOUT if sig.startswith("hang") else core.CHILD_TIMEOUT

            def fails(c, sig=sig, tmo=tmo):
                r = core.run_case(env, mod, c, base, timeout=tmo)
                return any(v["sig"] == sig for v in r["viol"])

            if not (fails(case) and fails(case)):
                if sig.startswith("hang"):   # slow, but it ends when given more time: not a hang
                    sys.stderr.write("run %d took over %d s but finishes; ignored\n" % (x["i"], core.CHILD_TIMEOUT))
                    continue
                unrepro += 1
                sys.stderr.write("run %d reported %s once but does not reproduce; ignored\n" % (x["i"], sig))
                continue
            if not a.noshrink and not sig.startswith("hang"):
                case, tr = core.shrink(mod, case, fails, budget_s=float(os.environ.get("SIM_SHRINK_S", "40")))
                shrink_tries += tr
            res = core.run_case(env, mod, case, base, timeout=tmo, want_log=True)
            det = [v for v in res["viol"] if v["sig"] == sig]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            with open(path, "w") as fh:
                json.dump({"property": prop, "sig": sig, "detail": det[0]["detail"] if det else "", "seed": seed,
                           "run": x["i"], "case": case, "trace": res["log"].splitlines()[-400:],
                           "history": res["hist"], "digest": res["digest"]}, fh, indent=1)
            print("violation: %s (run %d, seed %d): %s" % (sig, x["i"], seed, det[0]["detail"] if det else ""))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            reported.append(sig)
            rc = 1
        if unrepro and not reported:
            sys.stderr.write("only unreproducible reports: treated as a harness error\n")
            rc = 3
    finally:
        shutil.rmtree(base, ignore_errors=True)

    stats = [0] * len(core.STATS)
    probes, inters, cases, ops, simt = {}, set(), set(), 0, 0
    trivial = 0
    for x in recs:
        for j, v in enumerate(x["stats"]):
            stats[j] += v
        for k, v in x["probes"].items():
            probes[k] = probes.get(k, 0) + v
        if x["inter"]:
            inters.add(x["inter"])
        ops += x["ops"]
        simt += x["simt"]
        if x["probes"].get("nontrivial"):
            cases.add(x["cd"])
    st = dict(zip(core.STATS, stats))
    faults = {k: st[k] for k in ("short_io", "eintr", "io_errors", "open_errors", "seek_errors", "stat_errors", "early_eof",
                                 "crash_points", "alloc_failures", "pool_steals", "pool_reorders", "futex_blocks", "gil_releases",
                                 "fenced_allocs", "switches")}
    faults.update({k[6:]: v for k, v in probes.items() if k.startswith("fault:")})
    samples = []
    d = list(mod.directed()) if hasattr(mod, "directed") else []
    for i in sorted({len(d), len(d) + 7, len(d) + 23}):
        if i < total:
            c = mod.gen(core.case_rng(seed, prop, i), tier)
            s = json.dumps(c)
            samples.append(s if len(s) < 1500 else s[:1500] + "...")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(recs), "distinct_nontrivial": len(cases), "rule": mod.RULE, "samples": samples,
            "simulated_operations": ops,
            "runs_per_hour": int(len(recs) / max(wall, 1e-6) * 3600),
            "simulated_time_s": simt / 1e9,
            "faults_injected": {k: v for k, v in faults.items()},
            "seam_activity": st,
            "probes": dict(sorted(probes.items())),
            "distinct_interleavings": len(inters),
            "interleaving_measure": "distinct sequences of (from-thread, to-thread, scheduling point) over a run",
            "distinct_executions": len({x["digest"] for x in recs}),
            "components": {"real": mod.REAL, "simulated": mod.STUB},
            "known_findings_reproduced": kf_lines, "unreproduced_reports": unrepro, "shrink_runs": shrink_tries,
            "build_s": round(t_built - t_start, 1),
        },
        "assumptions": mod.ASSUME, "wall_s": round(time.monotonic() - t_start, 2), "violations": len(reported),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    sys.stderr.write("%s: %d runs, %d distinct non-trivial, %d interleavings, %.0fs (+%.0fs build), violations %d\n" % (
        prop, len(recs), len(cases), len(inters), wall, t_built - t_start, len(reported)))
    if a.all or os.environ.get("SIM_VERBOSE"):
        from collections import Counter
        for k, v in Counter(x["viol"][0]["sig"] for x in viols).most_common():
            sys.stderr.write("  %5d %s\n" % (v, k))
        sys.stderr.write(json.dumps(probes, indent=1, sort_keys=True) + "\n")
    sys.exit(rc)


if __name__ == "__main__":
    main()
