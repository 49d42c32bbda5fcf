#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as one reviewable source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("P01", "Parallel computations have no unsynchronised shared writes",
  "When a compute runs on several threads, no two parallel iterations ever write conflicting values to the same memory without synchronisation: every write made inside parallel work goes to memory private to the iteration or thread, to an element owned by exactly that iteration, or through an atomic, lock or concurrent container.",
  ["schedules", "inputs"], "every thread interleaving of every parallel loop, for every input system",
  "A racing write needs two particular iterations to overlap in time; the suite runs each compute a handful of times on small systems where the overlap practically never happens, and a lost update inside float tolerance is invisible.",
  ["freud/parallel/*", "freud/util/utils.h", "freud/util/ThreadStorage.h", "freud/locality/NeighborComputeFunctional.h", "freud/*/*.cc"],
  [("forLoopWrapper / parallel_for bodies", "freud/util/utils.h"), ("ThreadStorage / enumerable_thread_specific accumulation", "freud/util/ThreadStorage.h"), ("concurrent union-find", "freud/cluster/Cluster.cc")],
  ["every result array of a compute class"])
p("P02", "Results do not depend on thread count or work partitioning",
  "For a given input and seed, every result is the same (up to floating-point rounding of sums) whatever the number of threads and however the scheduler splits loops into ranges: range boundaries, thread identity, per-thread leftovers, completion order and unseeded randomness never reach a result, and lists gathered from several threads are put in a complete deterministic order before they are exposed.",
  ["schedules", "configurations"], "every thread count, range split and completion order",
  "Tests run with one thread count on small inputs where TBB rarely splits ranges; a dependence on the split shows only for particular sizes and machine loads.",
  ["freud/util/utils.h", "freud/util/ThreadStorage.h", "freud/order/Cubatic.cc", "freud/locality/NeighborComputeFunctional.cc", "freud/locality/NeighborList.cc", "freud/locality/LinkCell.cc", "freud/locality/Filter*.cc"],
  [("per-iteration seeding of random generators", "freud/order/Cubatic.cc"), ("sort of collected bonds", "freud/locality/NeighborQuery.h, freud/locality/Filter*.cc"), ("thread-local reduction", "freud/util/ThreadStorage.h")],
  ["all results under freud.parallel.set_num_threads"])
p("P03", "Recomputing on a used object equals a fresh object",
  "Calling compute (with reset, where that option exists) on an object that was used before gives exactly the results a newly constructed object with the same constructor arguments would give (or raises an error): nothing left over from earlier computations, including their sizes, flags, counters and caches, influences the new results.",
  ["histories", "inputs"], "every sequence of earlier compute calls, with any systems",
  "Tests mostly compute once per object, or recompute with the same shapes, so a buffer that is not cleared or a stale cache is not seen.",
  ["freud/cluster.py", "freud/density.py", "freud/environment.py", "freud/order.py", "freud/pmft.py", "freud/msd.py", "freud/*/*.cc", "freud/locality/BondHistogramCompute.h"],
  [("fresh allocation of result arrays in compute", "freud/*/*.cc"), ("reset() of accumulators", "freud/locality/BondHistogramCompute.h, freud/density/CorrelationFunction.cc, freud/density/GaussianDensity.cc")],
  ["every result property after a second compute"])
p("P04", "Accumulated results include every computation since the last reset",
  "For classes that accumulate over calls with reset=False, every result read at any time reflects exactly all data accumulated since the last reset: reading a result between computations never freezes it, resetting discards all of it, and all results of one object are normalised by the same accumulated frame count.",
  ["histories"], "every interleaving of compute, reset and result reads",
  "Tests read results once at the end of an accumulation; stale reductions need a read, a further compute and a second read of a different result.",
  ["freud/locality/BondHistogramCompute.h", "freud/density/RDF.cc", "freud/density/CorrelationFunction.cc", "freud/environment/BondOrder.cc", "freud/pmft/*.cc", "freud/density.py"],
  [("reduceAndReturn", "freud/locality/BondHistogramCompute.h"), ("m_reduce flag", "freud/locality/BondHistogramCompute.h")],
  ["rdf, n_r, bin_counts, correlation, pmft, bond_order"],
  [("m_reduce", "thread-local data not yet merged", "BondHistogramCompute / CorrelationFunction")])
p("P05", "Arrays already returned are not changed by later computations",
  "A result array or list a user obtained from an object keeps its values when that object computes afresh, resets or is garbage collected (accumulating with reset=False excepted): a new computation stores its results in newly allocated memory, and a returned array keeps its own memory alive.",
  ["histories"], "every later use or destruction of the producing object",
  "Only a few ManagedArray tests keep an old result across a compute; other classes and accessors are not covered.",
  ["freud/util/ManagedArray.h", "freud/util/export-ManagedArray.h", "freud/*/*.cc", "freud/locality/NeighborList.cc"],
  [("make_shared result arrays on each compute", "freud/*/*.cc"), ("nanobind capsule/shared_ptr owner of the returned array", "freud/util/export-ManagedArray.h")],
  ["numpy arrays returned by properties"])
p("P06", "Results are unavailable until a computation has succeeded",
  "On every analysis object, reading a computed result before the first successful computation raises AttributeError (also when an earlier compute call raised an exception), and after a successful computation it is available.",
  ["histories", "inputs"], "every order of property reads, failed and successful compute calls",
  "Tests check a few properties of a few classes before compute, and almost never after a failed compute.",
  ["freud/util.py", "freud/cluster.py", "freud/density.py", "freud/diffraction.py", "freud/environment.py", "freud/interface.py", "freud/locality.py", "freud/msd.py", "freud/order.py", "freud/pmft.py"],
  [("_Compute computed properties and _called_compute", "freud/util.py")],
  ["every result property"])
p("P07", "Array arguments are validated before native code uses them",
  "Every array argument is checked for its shape, and for agreeing lengths with the points, query points or other arrays it is paired with, before native code reads it, so a wrong shape or length raises an error and native code never reads outside an array the caller passed.",
  ["inputs"], "every shape and length combination of array arguments of every public method",
  "Each test passes well-formed arrays or one or two wrong shapes for one argument; lengths that do not match other arguments are rarely tried and often only read adjacent memory.",
  ["freud/util.py", "freud/cluster.py", "freud/density.py", "freud/environment.py", "freud/locality.py", "freud/order.py", "freud/pmft.py", "freud/box.py", "freud/*/export-*.cc"],
  [("_convert_array(shape=...)", "freud/util.py"), ("nanobind ndarray shape annotations", "freud/*/export-*.cc")],
  ["public compute and constructor methods"])
p("P08", "Arrays and objects passed by the user are never modified",
  "No computation or method writes to an array, neighbor list, box or other object that the user passed in (copies are made first where values must change); only the object a method is called on, or a newly created one, changes.",
  ["inputs", "histories"], "every argument of every public method, whatever its dtype and memory layout",
  "In-place changes occur only when the argument already has the native dtype and layout so no conversion copy is made; tests compare results, not their inputs afterwards.",
  ["freud/box.py", "freud/locality.py", "freud/util.py", "freud/data.py", "freud/diffraction.py", "freud/environment.py", "freud/*/export-*.cc"],
  [("np.copy before in-place natives", "freud/box.py"), ("const inputs in native code", "freud/*/*.h")],
  ["user arrays before/after a call"])
p("P09", "Native objects never outlive the user memory they reference",
  "Whenever a native object keeps a reference to memory owned by a Python object (points arrays, boxes, neighbor lists) after the call that passed it returns, that memory is kept alive for as long as the native object can use it.",
  ["histories"], "every order in which the user drops references",
  "A dangling reference usually still reads the old values; tests hold all their arrays in local variables.",
  ["freud/locality.py", "freud/locality/export-*.cc", "freud/locality/NeighborQuery.h", "freud/locality/RawPoints.h"],
  [("self._points / self._query_points style retention", "freud/locality.py"), ("shared_ptr members", "freud/locality/*.h")],
  ["lazy query results, neighbor queries"])
p("P10", "Every bond found by a query satisfies the query's filters",
  "Every neighbor bond produced by a ball query has r_min <= distance < r_max, every bond produced by a nearest-neighbor query respects r_min, r_max and num_neighbors, and with exclude_ii no bond joins a query point to the point of the same index; this holds for every query engine, on every path.",
  ["inputs", "configurations"], "all point sets, boxes, query arguments and engines",
  "Tests compare engines on random systems; boundary distances, r_min with exclude_ii, or one engine's special path are hardly ever hit.",
  ["freud/locality/AABBQuery.cc", "freud/locality/CellQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborQuery.h", "freud/locality/NeighborList.cc", "freud/locality/CellIterator.h"],
  [("emission guards of the per-point iterators", "freud/locality/AABBQuery.cc, CellQuery.cc, LinkCell.cc")],
  ["NeighborList contents, query iteration"])
p("P11", "Bond vectors are minimum-image, query point to point, length distance",
  "In every neighbor list or query result, each bond's vector is the minimum-image displacement from the query point to the point in that system's box, and its distance is the length of that same vector.",
  ["inputs", "configurations"], "all bonds from all engines, filters and constructors",
  "Tests check vectors for a few engines and rely on symmetric lists elsewhere, where a reversed or unwrapped vector is another valid-looking bond.",
  ["freud/locality/AABBQuery.cc", "freud/locality/CellQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborList.cc", "freud/locality/FilterRAD.cc", "freud/locality/FilterSANN.cc", "freud/locality/NeighborBond.h"],
  [("box.wrap(point - query_point)", "freud/locality/*.cc")],
  ["NeighborList.vectors, distances"])
p("P12", "Query-point and point indices are never interchanged",
  "Throughout the library the first index of a bond refers to query points and the second to points: each per-query-point array is sized by and indexed with query point indices only, each per-point array with point indices only, and arrays never swap roles between Python, the bindings and native code.",
  ["inputs", "configurations"], "all systems in which query points and points differ in number or order",
  "Most tests use the same set as points and query points, where exchanging the two indices changes nothing.",
  ["freud/locality/NeighborComputeFunctional.h", "freud/environment/AngularSeparation.cc", "freud/environment/BondOrder.cc", "freud/environment/LocalBondProjection.cc", "freud/density/CorrelationFunction.cc", "freud/density/LocalDensity.cc", "freud/order/*.cc", "freud/pmft/*.cc", "freud/cluster.py", "freud/density.py", "freud/environment.py", "freud/order.py", "freud/pmft.py"],
  [("NeighborBond getQueryPointIdx/getPointIdx", "freud/locality/NeighborBond.h"), ("loopOverNeighbors", "freud/locality/NeighborComputeFunctional.h")],
  ["all pair computes with separate query_points"])
p("P13", "Values outside a histogram's range are never counted",
  "A value below the lower edge or at or above the upper edge of any axis never adds to any bin or per-bin accumulator of any histogram-based result, a value inside falls in the bin whose edges contain it, and no bin access is ever outside the bin array.",
  ["inputs"], "all data values including exact edges, negatives and values beyond the range",
  "Random test data rarely lands exactly on an edge or beyond one, and an out-of-range write usually only touches neighbouring memory.",
  ["freud/util/Histogram.h", "freud/density/CorrelationFunction.cc", "freud/density/RDF.cc", "freud/pmft/*.cc", "freud/environment/BondOrder.cc"],
  [("OVERFLOW_BIN checks", "freud/util/Histogram.h")],
  ["bin_counts, rdf, correlation, pmft"])
p("P14", "A neighbor list's arrays always describe the same bonds",
  "At all times a neighbor list's bond indices, distances, weights and vectors have the same length and row k of each describes the same bond, bonds are ordered by query point, and segments and neighbor counts are those of the current bonds after any filtering, copying, resizing or other change; filters keep the attributes of the bonds they select.",
  ["histories", "inputs"], "every sequence of constructors, filters, copies and reads",
  "Tests read segments or counts once per list; a cache not invalidated by a later filter or copy needs a particular read-modify-read sequence.",
  ["freud/locality/NeighborList.cc", "freud/locality/NeighborList.h", "freud/locality.py"],
  [("m_segments_counts_updated", "freud/locality/NeighborList.cc"), ("filter/copy/resize moving all arrays together", "freud/locality/NeighborList.cc")],
  ["NeighborList properties"],
  [("m_segments_counts_updated", "cached segments/counts valid", "freud/locality/NeighborList.h")])
p("P15", "A neighbor list passed by the user must match the system",
  "A neighbor list passed to a computation or built from index arrays is checked before use: its numbers of query points and points must match the system it is used with, its query point indices must be sorted and all its indices in range, otherwise an error is raised and no memory outside the system's arrays is read.",
  ["inputs"], "every neighbor list and system combination",
  "Tests pass neighbor lists that were computed from the same system.",
  ["freud/locality/NeighborComputeFunctional.h", "freud/locality/NeighborComputeFunctional.cc", "freud/locality/NeighborList.cc", "freud/locality.py"],
  [("NeighborList::validate", "freud/locality/NeighborList.cc"), ("makeDefaultNlist / loopOverNeighbors", "freud/locality/NeighborComputeFunctional.*")],
  ["neighbors= argument of every compute"])
p("P16", "Dimensionality requirements are enforced",
  "Computations defined only for 2D systems reject 3D boxes and those defined only for 3D systems reject 2D boxes, by raising an error before any computation takes place; in 2D boxes, points and query points must have z = 0.",
  ["inputs", "configurations"], "every class with a dimensionality requirement, every box and way of passing a system",
  "Only some of the classes have a test for the wrong dimension, and only for one way of passing the system.",
  ["freud/density.py", "freud/order.py", "freud/pmft.py", "freud/pmft/*.cc", "freud/diffraction.py", "freud/locality.py", "freud/order/*.cc"],
  [("enforce2D/enforce3D", "freud/box/Box.h"), ("is2D checks", "freud/*.py")],
  ["compute methods"])
p("P17", "A box's derived quantities always match its current parameters",
  "Whatever sequence of constructors and setters produced a box, its volume, lattice vectors, inverse lengths, wrapping, fractional coordinates, images and periodic flags all follow from its current lengths, tilt factors, dimensionality and periodicity, and two boxes compare equal exactly when all of these agree.",
  ["histories"], "every sequence of box setters followed by any box operation",
  "Tests use boxes fresh from a constructor, or call one setter and read back the same quantity.",
  ["freud/box/Box.h", "freud/box.py", "freud/box/export-Box.cc"],
  [("setL recomputing derived members", "freud/box/Box.h"), ("operator==", "freud/box/Box.h")],
  ["Box methods"],
  [("m_lo/m_hi/m_Linv", "derived from m_L", "freud/box/Box.h"), ("m_2d", "dimensionality", "freud/box/Box.h")])
p("P18", "Constructor arguments and results connect to their native counterparts",
  "Every constructor or compute argument reaches the native parameter of the same meaning, every parameter property reads back the value given to the constructor, and every result property returns the result of that name; no two arguments are exchanged or dropped on the way between Python, bindings and native code.",
  ["inputs", "configurations"], "every argument and property of every class",
  "Tests commonly use equal or default values for several arguments, for which an exchanged or ignored argument gives the same results.",
  ["freud/*.py", "freud/*/export-*.cc", "freud/*/*.h"],
  [("nanobind .def tables", "freud/*/export-*.cc"), ("constructor initialisers", "freud/*/*.h")],
  ["all public attributes"])
p("P19", "Query arguments reach the search unchanged; bad ones are rejected",
  "Every key of a query-argument dictionary reaches the neighbor search with its value unchanged (or its documented default when absent), the query mode follows from the keys as documented, unknown keys and modes are rejected with an error, a pair computation without query points excludes self-neighbors by default, and passing a dictionary never changes that dictionary or the defaults used by later calls.",
  ["inputs", "histories"], "every combination of query argument keys and every sequence of calls",
  "Tests exercise a few usual combinations.",
  ["freud/locality.py", "freud/locality/NeighborQuery.h", "freud/locality/export-NeighborQuery.cc"],
  [("_QueryArgs", "freud/locality.py"), ("inferMode / validateQueryArgs", "freud/locality/NeighborQuery.h"), ("default_query_args", "freud/*.py")],
  ["neighbors= dictionaries"])
p("P20", "Results scale consistently with the unit of length",
  "Multiplying all lengths in the input (box, points and length-valued parameters) by a common factor multiplies each result by the fixed power of that factor given by its physical dimension and changes nothing else: quantities of different length dimension are never added, compared or interchanged.",
  ["inputs"], "all systems and all common scale factors",
  "Tests use systems of order-one lengths, where confusing r with r squared or a length with its inverse often changes no tested decision.",
  ["freud/density/*.cc", "freud/pmft/*.cc", "freud/locality/*.cc", "freud/order/*.cc", "freud/box/Box.h", "freud/cluster/ClusterProperties.cc"],
  [("all arithmetic on positions and distances", "freud/*/*.cc")],
  ["all numeric results"])
p("P21", "Invalid constructor parameters are rejected",
  "Constructor parameters outside their valid range (for example non-positive bin counts, r_max not above 0 or not above r_min, negative widths or unknown mode names) raise an error instead of producing an object, in every class that takes them.",
  ["inputs"], "every value of every constrained constructor parameter",
  "Tests try few invalid values and not for every class or parameter.",
  ["freud/*.py", "freud/density/*.cc", "freud/pmft/*.cc", "freud/environment/*.cc", "freud/order/*.cc", "freud/locality/*.cc", "freud/util/Histogram.h"],
  [("range checks in native constructors", "freud/*/*.cc")],
  ["constructors"])
p("P22", "repr of an object recreates it",
  "For every class whose repr is a constructor expression, evaluating repr(obj) gives an object with the same constructor parameters: the representation names every constructor parameter and gives that parameter's current value.",
  ["inputs", "configurations"], "every combination of constructor arguments",
  "Tests compare repr of repr, which agrees even when a parameter is missing from both, and use default values.",
  ["freud/*.py"], [("__repr__ methods", "freud/*.py")], ["repr()"])
p("P23", "Non-periodic directions are never wrapped",
  "Wrapping and minimum-image displacements are applied in a direction only when the box is periodic in that direction; neighbor queries that cannot honour a non-periodic box refuse it with an error.",
  ["inputs", "configurations"], "all combinations of periodicity flags with any points",
  "Almost all tests use fully periodic boxes.",
  ["freud/box/Box.h", "freud/locality/*.cc", "freud/locality/NeighborQuery.h", "freud/diffraction.py"],
  [("m_periodic checks in wrap", "freud/box/Box.h"), ("periodicity checks in query", "freud/locality/NeighborQuery.h")],
  ["Box.wrap, neighbor queries"])
p("P24", "Objects share no hidden mutable state",
  "Two objects of the library never influence each other except through arguments explicitly shared by the user: nothing a computation writes lives in a global, a class attribute, a mutable default argument or a function-level static, apart from the documented thread-count setting.",
  ["histories", "schedules"], "every interleaving of operations on several objects",
  "Tests use one object at a time.",
  ["freud/*.py", "freud/*/*.cc", "freud/*/*.h"],
  [("instance-level state only", "freud/*")], ["all classes"])
# --- stated, but outside the reach of a sound static argument here
p("N01", "Results equal their mathematical definitions",
  "Every computed quantity equals its published definition on the given system, to floating-point accuracy.",
  ["inputs"], "all systems", "Tests compare a few systems against analytic or reference values.",
  ["freud/*/*.cc", "freud/*.py"], [("numerical kernels", "freud/*/*.cc")])
p("N02", "Neighbor queries are complete",
  "Ball queries return every pair within the cutoff and nearest-neighbor queries return exactly the k nearest, whatever the engine.",
  ["inputs"], "all point sets, boxes and query arguments", "Random systems only.",
  ["freud/locality/AABBQuery.cc", "freud/locality/CellQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/AABBTree.h"], [("spatial data structures", "freud/locality/*")])
p("N03", "Connected components are exactly the clusters",
  "Two particles get the same cluster index exactly when a chain of bonds joins them, and clusters are numbered by decreasing size.",
  ["inputs"], "all bond graphs", "Small graphs only.",
  ["freud/cluster/Cluster.cc", "freud/cluster/Dset*"], [("concurrent disjoint sets", "freud/cluster/Cluster.cc")])
p("N04", "Results are invariant under rotation and translation",
  "Rotationally or translationally invariant quantities do not change when the whole system is rotated or shifted.",
  ["inputs"], "all rigid motions", "A few rotations in tests.",
  ["freud/order/*.cc", "freud/environment/*.cc"], [("numerical kernels", "freud/*/*.cc")])
p("N05", "Optimisers converge to the best orientation or registration",
  "Simulated annealing and registration find the optimal orientation or mapping.",
  ["inputs"], "all systems and seeds", "A few crystals only.",
  ["freud/order/Cubatic.cc", "freud/environment/Registration.h", "freud/environment/MatchEnv.cc"], [("annealing loop", "freud/order/Cubatic.cc")])
p("N06", "Every computation terminates with bounded memory",
  "Every call terminates and uses memory proportional to its documented complexity.",
  ["inputs"], "all inputs", "Small inputs only.",
  ["freud/locality/CellQuery.cc", "freud/locality/LinkCell.cc"], [("search loops", "freud/locality/*.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
