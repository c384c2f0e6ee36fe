prop("C05", "One memory: views share it, copies do not, writes land exactly",
     "Basic indexing (with any step, including negative), transposes, axis swaps and moves, flips, newaxis, squeeze, splits, diagonals, broadcast views, reshape/ravel of contiguous arrays and arrays exported to NumPy all refer to the memory of the array they came from; copies (copy, array, astype, flatten, index-array and mask selection) never do. A write through any of them (item and slice assignment, also between overlapping views; fill, put, copyto, place, putmask, put_along_axis, fill_diagonal, in-place sort and partition, shuffle) changes exactly the selected elements to exactly the assigned values, is seen at once by every handle that includes them and by no other, and never touches memory outside the array. This holds for every element type and layout, when handles are dropped in any order, when several threads take turns on the same memory, and when converting the assigned value runs other code or raises, in which case nothing changes.",
     ["histories", "schedules", "inputs", "fault_sequences"], "every history of view, export, write, read and drop operations over handles of every element type and layout, every interleaving of the threads performing them, every conversion that yields or raises",
     "tests perform one view and one write on a fresh contiguous float array, in one thread",
     ["src/array/mod.rs", "src/array/buffer.rs", "src/python/pyarray/dunder_item.rs", "src/python/pyarray/mod.rs", "src/ops/indexing.rs", "src/python/shape.rs", "src/python/random.rs"],
     [("views over a shared buffer", "src/array/mod.rs: view_with, slice_axis, transpose_axes, reshape"), ("item assignment", "src/python/pyarray/dunder_item.rs: __setitem__"),
      ("in-place element operations", "src/ops/indexing.rs and src/python/pyarray/mod.rs")],
     ["contents of every live handle and exported numpy array after every operation"],
     technique="deterministic simulation: histories of aliasing operations under seeded thread schedules, faulting conversions and a guarded allocator, refined against a single-copy memory model")
prop("C06", "Memory lives exactly as long as something refers to it",
     "An array's memory stays valid and unchanged while anything derived from it is still reachable: a view, a view of a view, a flat or enumerating iterator, a NumPy array or memoryview obtained from it, an item of a split, or (for imported arrays) the rumpy array over someone else's memory. It is released as soon as the last of them is gone, whatever the order in which they were dropped, in whichever thread, and also when an operation in between failed. No operation reads or writes memory that was already released, releases it twice, or leaks it; repeating any sequence of operations leaves the amount of memory held unchanged.",
     ["histories", "schedules", "fault_sequences"], "every history of deriving, holding, using, resizing and dropping handles of every element type in several threads, including operations that fail",
     "tests keep every owner alive until the end of the function, in one thread, with an allocator that does not notice",
     ["src/array/buffer.rs", "src/array/mod.rs", "src/python/pyarray/mod.rs", "src/python/pyarray/dunder_item.rs", "src/array/iter.rs"],
     [("reference-counted buffer", "src/array/buffer.rs: ArrayBuffer"), ("exports and imports", "src/python/pyarray/mod.rs: __array_interface__, asarray")],
     ["accesses to released blocks (fenced by the simulated allocator)", "live bytes and blocks after all handles are gone", "contents of every derived handle after its owner was dropped"],
     technique="deterministic simulation: histories of derive, hold, use and drop operations under seeded thread schedules on a fenced allocator that counts live memory")
prop("C07", "Computing leaves its operands alone, and results are independent",
     "Calling a function, method or operator never changes the arrays passed to it, nor the memory around them, whether it succeeds or fails. The arrays it returns are new: except for the functions that return views by definition (indexing, reshaping, transposing, splitting, flipping, broadcasting and the like), a result shares no memory with any operand or with any other result, so later writing to one never shows in another. This holds when the same array is passed twice, when operands are views of each other's memory, when the caller's own reference dies during the call while a view or a NumPy export of the memory lives on, for arrays large enough that temporaries may be reused, and when several threads compute on the same operands.",
     ["inputs", "histories", "schedules"], "every callable of the module on operands of every element type, shape and layout, aliased or not, held or dropped by the caller, in every interleaving of threads sharing them, in calls that succeed and calls that fail",
     "tests look only at the result of one call on a fresh contiguous array, never at operands, their surroundings or earlier results afterwards",
     ["src/ops/", "src/python/pyarray/mod.rs", "src/ops/ufunc.rs", "src/array/manipulation.rs", "src/python/misc.rs"],
     [("reuse of temporaries", "src/python/pyarray/mod.rs: try_elision_candidate; src/ops/ufunc.rs: map_binary_op_inplace"), ("shortcuts that return the operand", "src/array/manipulation.rs, src/python/misc.rs, src/ops/linalg.rs")],
     ["bytes of every operand, its whole buffer, and every earlier result after every call", "address ranges of results against operands and other results"],
     technique="deterministic simulation: seeded call histories over shared and dropped operands under seeded thread schedules, every buffer compared with its snapshot after each call")
prop("C14", "No call corrupts memory, crashes the process or hangs",
     "Whatever arguments a public function, method, operator, index or assignment receives (wrong types, wrong number of dimensions, mismatched or empty shapes, out-of-range axes, indices, slices and steps, non-contiguous, transposed, reversed or broadcast operands of any element type), the call either returns or raises: it never reads or writes memory outside the arrays involved, never ends the process, never hangs, and leaves the module fully usable for every thread afterwards.",
     ["inputs", "histories", "schedules"], "every callable with every kind of misfit argument, on every layout, in every sequence and interleaving of such calls",
     "tests pass arguments that fit, with an allocator that does not notice stray accesses",
     ["src/python/", "src/ops/", "src/array/mod.rs", "src/array/views.rs", "src/array/iter.rs"],
     [("raw pointer arithmetic over strides", "src/array/iter.rs, src/ops/loops/strided.rs, src/array/views.rs"), ("argument validation", "src/python/*.rs")],
     ["stray accesses (fenced allocator)", "process death", "no progress", "well-known results afterwards"],
     technique="deterministic simulation: seeded misfit calls under seeded thread schedules on a fenced allocator with guard pages on either side")
prop("C17", "A result depends only on the operands' values",
     "The result of a call is determined by the values, shapes and element types of its operands. It does not depend on how the operands lie in memory (contiguous, transposed, strided, reversed, offset or broadcast), on where they were allocated, on what unused or freshly allocated memory happens to contain, on how often the call was made before, on which thread makes it, on what other threads do meanwhile, or on how the worker pool schedules its work: repeating a call gives the identical result, and a copy of an operand in another layout gives the same values (up to floating-point rounding), or the same kind of refusal.",
     ["inputs", "schedules", "histories"], "every callable on operands of every element type and layout, every content of uninitialised memory and placement of buffers, every interleaving and pool schedule",
     "tests call each function once on a contiguous array, on an allocator that usually hands out zeroed memory",
     ["src/ops/", "src/array/iter.rs", "src/array/manipulation.rs", "src/ops/dispatch.rs", "src/ops/loops/strided.rs", "src/ops/loops/contiguous.rs"],
     [("separate code paths for contiguous and strided operands", "src/ops/dispatch.rs, src/ops/loops/"), ("uninitialised result buffers", "src/array/buffer.rs")],
     ["results of the same call repeated with other memory contents, and with the same values in plain layout"],
     technique="deterministic simulation: each call is repeated under different seeded memory contents, placements, schedules and layouts, and the results compared")
prop("C11", "Functions that run your code run it exactly as promised",
     "Functions that take a Python callable (vectorize, frompyfunc, apply_along_axis, apply_over_axes, fromfunction, piecewise) call it once for each element, or each one-dimensional slice, with the exact value of that element or slice, and put what it returns at exactly that place of the result. An exception the callable raises, of whatever kind and at whichever call, reaches the caller as that same exception object, without a result and without further calls. The callable may itself call rumpy, including the same function again, and may let other threads run that make the same kind of calls: nobody sees anyone else's values. Nothing the callable does or fails to do (a result of another shape or type, nested calls, changing the arrays involved) corrupts memory or crashes the process.",
     ["inputs", "schedules", "fault_sequences"], "every operand type, shape and layout, every sequence of callback results, every callback that raises at every position, every nesting and interleaving of such calls",
     "tests use a callback that succeeds, on one small float array, in one thread",
     ["src/python/functional.rs", "src/python/misc.rs"],
     [("callbacks per element and per slice", "src/python/functional.rs: vectorize, frompyfunc, apply_along_axis, apply_over_axes"), ("piecewise", "src/python/misc.rs: piecewise")],
     ["arguments and number of callback calls", "results and their places", "identity of the exception that arrives"],
     technique="deterministic simulation: seeded callbacks (results, exceptions, re-entrant calls) as scheduling points under seeded thread schedules, refined against a sequential model of each function")
prop("C12", "Arrays made from Python objects hold the given values, or are refused",
     "array, asarray, full, full_like, item and slice assignment and fill store exactly the given Python numbers: integers of any size, booleans, floats, complex numbers and texts come back as the values that were put in, in the shape of their nesting, rounded only as the requested element type rounds. A value the element type cannot hold, a ragged nesting or an object that is no number raises an error and changes nothing; nothing is truncated, wrapped around or dropped silently. Arrays taken from other libraries (any layout, byte order or alignment) have the same values or are refused. This holds when converting an object runs Python code: code that lets other threads run, changes the container being converted, calls rumpy, returns nonsense, or raises, in which case that same exception arrives; then every element is still a value the container held, and no memory is corrupted.",
     ["inputs", "schedules", "fault_sequences"], "every nesting of every kind of Python number and foreign array, every conversion that yields, raises, lies or changes its container, every interleaving of threads sharing a container",
     "tests convert small lists of small well-behaved numbers, in one thread",
     ["src/python/creation.rs", "src/python/pyarray/dunder_item.rs", "src/python/pyarray/mod.rs"],
     [("nested sequences to arrays", "src/python/creation.rs: from_list, flatten_nested_list"), ("foreign arrays", "src/python/creation.rs: from_array_interface"), ("assignment of scalars", "src/python/pyarray/dunder_item.rs: __setitem__")],
     ["values, element type and shape of every array built", "refusals", "arrays after a refused assignment"],
     technique="deterministic simulation: seeded nested containers with conversions that yield, raise, lie or mutate, under seeded thread schedules on a fenced allocator, refined against an exact value model")
prop("C15", "Linear algebra is right whatever the worker pool does",
     "Matrix products (matmul and @ with stacked, broadcast and one-dimensional operands, dot, inner, outer, vdot, kron, tensordot, multi_dot, matrix_power, einsum, cross, trace) are the exact sums of products of their operands' elements whenever those sums are representable, in the shape NumPy defines, or are refused; decompositions and solvers (solve, inv, det, slogdet, qr, svd, eigh, eig, cholesky, pinv, lstsq, matrix_rank, norm, cond, tensorsolve, tensorinv, and the values-only forms) satisfy their defining equations to rounding for every real matrix, full rank or not, where the problem has a solution. This holds for every number of worker threads, every order in which the pool runs its tasks, every element type, size and memory layout of the operands, and any calls other threads make at the same time; operands are left unchanged.",
     ["schedules", "inputs"], "every number of pool threads, every order and theft of pool tasks, every interleaving of callers, every element type, shape, rank and layout of the operands",
     "tests multiply and decompose a few small full-rank float matrices on whatever pool the machine has",
     ["src/ops/matmul.rs", "src/ops/linalg.rs", "src/ops/solve.rs", "src/ops/dot.rs", "src/ops/inner.rs", "src/ops/outer.rs", "src/ops/einsum.rs", "src/ops/gufunc/"],
     [("parallel products", "src/ops/matmul.rs: matmul_faer_*; src/ops/gufunc/mod.rs: gufunc_call"), ("decompositions", "src/ops/linalg.rs"), ("solver", "src/ops/solve.rs: solve")],
     ["products compared with exact sums", "residuals, orthogonality, triangularity and order of factors", "shapes"],
     technique="deterministic simulation: the worker pool is replaced by a seeded one (thread count, task order, stealing), callers run under seeded schedules, and every result is checked against exact sums or its defining equation")
prop("C13", "What one caller computes is unaffected by anybody else",
     "A thread that runs a sequence of calls (array functions, operators, assignments to its own arrays, its own generators, saving to and loading from its own files, calls with its own callbacks) gets from each of them the same result or the same exception as when it runs alone, whatever other threads do at the same time, whether or not their operands share memory that nobody writes, whatever nested calls callbacks, conversions and iterations make, and whatever calls failed before. No state of the module (caches, registries, scratch space, locks) carries anything from one call to another.",
     ["schedules", "histories", "fault_sequences"], "every interleaving at calls, callbacks, conversions and I/O of any programs in several threads, with any of them failing anywhere",
     "tests run one call after another in one thread, in a fixed order, and nothing nested",
     ["src/ops/registry.rs", "src/python/functional.rs", "src/python/random.rs", "src/python/pyarray/mod.rs", "src/python/creation.rs", "src/python/io.rs"],
     [("process-wide state", "src/ops/registry.rs: registry (RwLock); src/random/: generators"), ("calls that run Python code in the middle", "src/python/functional.rs, src/python/creation.rs, src/python/misc.rs, src/python/random.rs")],
     ["outcome of every call of every thread, alone and among others"],
     technique="deterministic simulation: the program of each thread is run alone, then interleaved with the others by the seeded scheduler with failing and nested calls, then alone again; all outcomes must be identical")
prop("C16", "Iterators and element access yield each element once, in order, as it is now",
     "Iterating over an array (for, iter, flat, ndenumerate, ndindex, tolist) and reading single elements (full index, item, int, float, flat[i]) give every element exactly once, in row-major order, with exactly the value that element has at the moment it is produced, for every element type, shape (zero-dimensional and empty ones too) and layout. An exhausted iterator stays exhausted. Iterators are independent of each other; one shared by several threads hands each element to exactly one of them; a write or drop of other handles during iteration changes nothing else.",
     ["inputs", "histories", "schedules"], "every array of every element type and layout, every history of next, write and drop operations, every interleaving of threads sharing an iterator",
     "tests turn one small contiguous float array into a list",
     ["src/python/pyarray/mod.rs", "src/python/indexing.rs", "src/array/iter.rs", "src/array/mod.rs"],
     [("flat iterator and element conversion", "src/python/pyarray/mod.rs: PyFlatIter, element_object, tolist"), ("enumerating iterators", "src/python/indexing.rs: NdEnumerate, NdIndex"), ("offsets over strides", "src/array/iter.rs: StridedIter")],
     ["every element produced, in order, per iterator and thread"],
     technique="deterministic simulation: histories of iterator steps, writes and drops by several threads under a seeded scheduler, refined against a list model of the array")
