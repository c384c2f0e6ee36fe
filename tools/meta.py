"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = "deterministic simulation with fault injection (seeded search over schedules, faults and operation histories)"


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None, technique=None, note=None, na=None):
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, technique, note, na))


IO = "src/ops/io.rs"
PIO = "src/python/io.rs"
RNG = "src/random/mod.rs"

prop("C01", "Binary persistence round trip is exact",
     "An array written to a .npy file, a (compressed or uncompressed) .npz archive, a raw binary file, a byte string or a pickle and read back has exactly the same element type, shape and element values, for every element type, memory layout and array name. NumPy reads the files rumpy writes and rumpy reads the files NumPy writes with the same result, and a file in an element type or byte order rumpy does not support is refused rather than read as other values. None of this depends on how the operating system splits, shortens or interrupts the transfers, on what was in the file before, or on other threads saving and loading at the same time.",
     ["inputs", "schedules", "fault_sequences"], "every element type, shape, strided or transposed view, set of array names, transfer pattern (short reads/writes, EINTR) and interleaving of concurrent saves and loads",
     "tests round-trip a few contiguous arrays through a kernel that never shortens or interrupts a transfer",
     [IO, PIO, "src/array/dtype/mod.rs", "src/array/mod.rs"],
     [("npy writer and reader", IO + ": write_npy, read_npy"), ("npz writer and reader", IO + ": savez_impl, load_npz"), ("raw files and bytes", IO + ": tofile, fromfile, frombuffer")],
     ["files produced by save/savez/tofile", "arrays returned by load/fromfile/frombuffer"],
     technique="deterministic simulation: seeded short/interrupted transfers and save/load interleavings, numpy as reference model")
prop("C02", "Storage failures are reported, never swallowed",
     "When the operating system refuses or cuts short any step of a save or load (cannot open, I/O error, full disk or quota, early end of file), the call raises an ordinary catchable exception; it never panics, hangs, leaks the file descriptor, or returns as if it had succeeded with missing or altered data. The arrays being saved are unchanged by the failure. Once the fault is gone the same call succeeds.",
     ["fault_sequences", "crash_points", "inputs"], "every storage call of every reader and writer, every error code, every disk capacity at which the write runs out, combined with short transfers and EINTR",
     "the tests never see a failing disk: no test makes a read, write, seek or stat fail",
     [IO, PIO], [("error propagation from every writer incl. the final flush", IO), ("npz assembled before it is written", IO + ": savez_impl")],
     ["exceptions of save/savez/savez_compressed/savetxt/tofile/load/loadtxt/genfromtxt/fromfile", "/proc/self/fd"],
     technique="deterministic simulation: injected storage errors, full disks and early EOF at every system call")
prop("C03", "Damaged and half-written files are refused or read faithfully",
     "Loading a file that a crash in the middle of a save, a torn write, truncation or corruption left behind either raises an ordinary exception or returns data that really is in the file: a truncated .npy or .npz file never loads, and arrays from a damaged .npz archive are never altered ones. No file content, however malformed, makes the reader abort the process, panic, hang, read outside its memory or allocate what the file does not hold. Afterwards intact files still load.",
     ["crash_points", "fault_sequences", "inputs"], "a crash at any write of a save, any truncation point, any bit flips, any torn/stale/zeroed sectors, any malformed header",
     "tests load only files they have just written completely",
     [IO, "src/array/buffer.rs"], [("header parsing and claimed sizes", IO + ": read_npy, parse_npy_header, extract_shape"), ("archive checksums", IO + ": load_npz")],
     ["load/loadtxt/genfromtxt/fromfile on the surviving bytes"],
     technique="deterministic simulation: crash points during save, torn/truncated/corrupted storage, then recovery reads")
prop("C04", "Text persistence round trip is exact",
     "Numbers written as text (table or separated list, any delimiter, header, footer, comment marker and line ending) and read back are exactly the numbers written, in the same rows and columns, and row/column selection options of the readers pick exactly the rows and columns named. What cannot be represented or parsed is an error, not a dropped or substituted number. None of this depends on how the operating system splits or interrupts the transfers.",
     ["inputs", "fault_sequences", "schedules"], "every real element type, layout, text option combination, transfer pattern and interleaving of concurrent readers and writers",
     "tests write small tables in one piece and read them in one piece",
     [IO, PIO], [("table writer and readers", IO + ": savetxt, loadtxt, genfromtxt"), ("separated lists", IO + ": tofile, fromfile_text"), ("number formatting", IO + ": format_value")],
     ["text files", "arrays returned by loadtxt/genfromtxt/fromfile"],
     technique="deterministic simulation: seeded short/interrupted transfers and interleavings against an independent parser model")
prop("C08", "A seeded generator is one reproducible stream under any use",
     "A generator created from a seed yields one fixed stream: the same sequence of calls gives the same values on every run, splitting a request into smaller ones gives the same numbers, and for the streams shared with NumPy the values equal NumPy's for the same seed. When several threads share one generator, their calls behave as if executed one after another in some order: every value of the stream is handed out exactly once, none is lost, repeated or invented. Generators are independent: using one never disturbs another.",
     ["schedules", "histories", "inputs"], "every interleaving of threads drawing from shared generators, every mix of methods, sizes and seeds",
     "tests draw from one thread with a few seeds; no test shares a generator between threads",
     [RNG, "src/python/random.rs"], [("generator state behind a lock", "src/python/random.rs"), ("bit generator and buffering", RNG)],
     ["values returned to each thread"],
     technique="deterministic simulation: seeded thread schedules, history checked for linearizability against a reference stream")
prop("C09", "A failed draw is an exception and consumes nothing",
     "A draw with invalid arguments, or whose arguments raise while being converted, raises an ordinary exception, consumes nothing from the stream, and leaves the generator fully usable by every thread. Arguments that call back into the same generator while being converted, or let other threads run, never deadlock. No parameter value makes a draw panic, hang or poison the generator.",
     ["inputs", "schedules", "fault_sequences"], "every method, every invalid or extreme parameter, every raising/re-entrant argument, every schedule of other threads sharing the generator",
     "tests try a few invalid arguments and never use the generator afterwards or from another thread",
     [RNG, "src/python/random.rs"], [("argument conversion before locking", "src/python/random.rs"), ("parameter validation", "src/python/random.rs")],
     ["exceptions and later draws"],
     technique="deterministic simulation: faulting and re-entrant arguments under seeded schedules, deadlock detection, stream position checked against a twin")
prop("C10", "Unseeded generators never repeat each other",
     "Two generators created without a seed, in any thread, in any process (one forked from another included) and however many there are, produce different streams, whatever the clock does: standing still, coarse, jumping backwards or repeating values.",
     ["schedules", "fault_sequences", "histories"], "every clock behaviour, entropy stream, interleaving of generator creation and moment of a fork",
     "tests create generators on a host whose clock always advances between two calls",
     [RNG, "src/python/random.rs"], [("seeding without a seed", RNG)], ["first draws of unseeded generators"],
     technique="deterministic simulation: simulated clock (stalled, coarse, backwards) and entropy under seeded schedules")

exec(open(os.path.join(V, "tools", "meta_more.py")).read())

NA = [
    ("C31", "Elementwise operations agree with NumPy", "Every elementwise function and operator gives NumPy's result, element type and shape for every input.", ["inputs"],
     "a few values per function", ["src/ops/ufunc.rs", "src/ops/kernels/"], "pure single-threaded functions of their inputs: no schedule, time, I/O or fault to simulate; deciding them is differential testing, a different technique"),
    ("C32", "Broadcasting and type promotion agree with NumPy", "Shapes broadcast and element types promote as in NumPy for every pair of operands.", ["inputs"],
     "a few shape and type pairs", ["src/ops/", "src/array/dtype/mod.rs"], "a pure function of shapes and types; nothing for a simulator to control"),
    ("C33", "Reductions agree with NumPy", "Sums, products, extrema, means, variances and the NaN-ignoring variants agree with NumPy for every array, axis and layout.", ["inputs"],
     "a few arrays per reduction", ["src/python/reductions.rs", "src/ops/statistics.rs"], "pure single-threaded functions; no nondeterminism"),
    ("C34", "FFT and its inverse agree with NumPy", "Forward and inverse transforms agree with NumPy for every length, axis and normalisation.", ["inputs"],
     "a few lengths", ["src/ops/fft.rs"], "pure numerical functions of one array; nothing to schedule or fail"),
    ("C35", "Sorting, searching and set operations agree with NumPy", "Sorting, partitioning, searching, counting and set functions give NumPy's results for every input.", ["inputs"],
     "a few arrays", ["src/ops/indexing.rs", "src/ops/set_ops.rs"], "pure functions of their inputs (their in-place forms are covered as memory effects by C05)"),
    ("C36", "String and character operations agree with NumPy", "Character-array functions give NumPy's strings for every input.", ["inputs"],
     "a few strings", ["src/ops/char.rs"], "pure functions of their inputs"),
    ("C37", "Datetime arithmetic agrees with NumPy", "Date and time arithmetic, conversion and business-day functions agree with NumPy.", ["inputs"],
     "a few dates", ["src/python/datetime.rs", "src/array/dtype/datetime64.rs"], "pure functions; the code reads no clock"),
    ("C38", "Random distributions have the right statistics", "Samples of every distribution have the distribution's law for every valid parameter.", ["inputs"],
     "moments at one seed", [RNG], "a statement about long-run frequencies of a fixed stream; a schedule or fault cannot change it (that the stream is undisturbed is C08)"),
    ("C39", "Einstein summation, polynomials and printing agree with NumPy", "Contractions, polynomial fitting and evaluation, and the printed form of arrays agree with NumPy.", ["inputs"],
     "a few expressions", ["src/ops/einsum.rs", "src/ops/poly.rs", "src/array/format.rs"], "pure functions of their inputs"),
]
for pid, title, st, over, why, files, reason in NA:
    prop(pid, title, st, over, "every input", why, files, [("implementation", f) for f in files[:1]], na=reason)

out, checks, na = [], [], []
for d, tech, note, reason in P:
    claimed = os.path.exists(os.path.join(V, "sim", "props", d["id"].lower() + ".py"))
    if reason:
        na.append({"property": d["id"], "reason": reason})
    elif claimed:
        checks.append({"property": d["id"], "quick_cmd": "./check " + d["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + d["id"],
                       "technique": tech or TECH, "level": "exploration",
                       "level_note": note or "Seeded exploration: the real extension runs under a simulator that owns every source of nondeterminism the property depends on; it shows no violation in the seeds explored, not the absence of one. Trusts the simulator's seams (import patching, simulated pool), numpy as reference and the harness's models.",
                       "evidence_file": "evidence/%s.json" % d["id"]})
    else:
        continue
    out.append(d)
for d in out:
    for f in d["anchors"]["files"]:
        if not os.path.exists(os.path.join("/repo", f)):
            print("anchor does not exist:", d["id"], f)
    assert len(d["title"]) <= 80, d["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m sim.build",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the extension's own imports (patched in its GOT at load time) and the rayon-core crate (replaced through [patch] in a generated manifest). See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(out), "properties,", len(checks), "checks")
