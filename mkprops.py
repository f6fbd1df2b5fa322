#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
SIM = "deterministic simulation: seeded schedules and faults over the real library, "
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), tech="", note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                observe_at=list(observe), hook_needed=None)), tech, note))


prop("C01", "A finished tree answers exactly, however its parallel build was scheduled",
     "Whatever the interleaving of the threads that build a tree, and for every split level, leaf size, dimension, precision and arrangement of the points "
     "(ties, duplicates, collinear, a single point), the finished tree contains every input point exactly once and its nearest-neighbour answers are exact: "
     "the distance is the smallest over all points and the returned index is that of a point at that distance. The same holds for the k nearest of one query. It gives its caller's data back, and counts its nodes: one if the data fits into one leaf, otherwise more.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the build's threads and pool workers; every finite data set, leaf size, split level, dimension 1 to 4 and both precisions",
     "The tests build a few uniform random data sets on whatever schedule the machine gives; ties, duplicates, tiny inputs and late or stalled build threads are never sampled.",
     ["src/lib.rs", "src/query.rs", "src/query_k.rs", "src/query_k/container.rs", "src/distance.rs"],
     [("partition at the median, subtrees built in parallel down to the split level and then merged with shifted indices", "src/lib.rs Tree::new, Tree::new_parallel, build_nodes_parallel, build_nodes"),
      ("branch-and-bound search with bounding boxes", "src/query.rs, src/query_k.rs")],
     [("nodes", "stems and leaves addressed by index after the merge", "src/lib.rs Tree")],
     ["Tree::new", "Tree::new_parallel", "query_nearest", "query_nearest_k"],
     SIM + "answers against exhaustive search", "")
prop("C02", "Parallel batch k-nearest queries are exact and row-aligned",
     "For every batch, pool size and schedule, row i of a parallel k-nearest batch is the exact, ascending answer to query i: the k smallest distances (all points when k exceeds their number), "
     "each with the index of a point at that distance and no point used twice. Both batch variants hold to it, inside and outside a thread pool.",
     ["schedules", "inputs", "configurations"],
     "every work distribution and interleaving of the workers, any batch length including none and one, any k including 0 and more than there are points",
     "Tests run a handful of large uniform batches on the machine's own schedule; rows written by the wrong worker, short batches, reused scratch space and k at its limits are not reached.",
     ["src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/with.rs", "src/query_k/container.rs"],
     [("each query writes its own row of preallocated output through a raw pointer", "src/query_k/parallel.rs, src/query_k/parallel_with.rs"),
      ("one reusable container per worker index", "src/query_k/parallel_with.rs")],
     [("per-worker container", "scratch heap that must be emptied between queries", "src/query_k/parallel_with.rs, src/query_k/with.rs")],
     ["query_nearest_k_parallel", "query_nearest_k_parallel_with"],
     SIM + "every row against exhaustive search")
prop("C03", "Axis batches return the exact neighbours split into axis and off-axis parts",
     "For every batch, axis, pool size and schedule, row i of a batch query along an axis holds for each of the k nearest neighbours of query i, in order, the distance along the axis and the distance perpendicular to it; "
     "both belong to the same neighbour, no neighbour is used twice, and together they give its distance. An axis that the data does not have is refused with an error.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the workers; any batch, k, axis, with or without a periodic box, with and without indices",
     "No test checks the axis results of the library against a reference; the Python tests only sample plain queries.",
     ["src/query_k/parallel_axis.rs", "src/query_k/container_axis.rs", "src/distance.rs"],
     [("container that keeps axis and off-axis parts sorted by the total", "src/query_k/container_axis.rs"), ("rows written through raw pointers", "src/query_k/parallel_axis.rs")],
     [], ["query_nearest_k_parallel_axis"], SIM + "every row against exhaustive search")
prop("C04", "Periodic queries consider every image that can matter",
     "With a periodic box set, every kind of query (single, k nearest, both batch forms, axis) returns the exact neighbours over the points and their images "
     "(in each direction the query as it is and shifted across the face it is nearer to, in all 2^D combinations), "
     "for every query inside the box including its faces, edges and corners, every box that encloses the data, and every schedule of the workers.",
     ["inputs", "schedules", "configurations"],
     "data in the box, queries anywhere in the box, boxes from skin-tight to much larger and of unequal sides, k up to the number of points",
     "The periodic tests draw uniform points in a unit cube, where wrapped neighbours across several faces at once, large k and unequal sides are rare or absent.",
     ["src/query.rs", "src/query_k.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/query_k/with.rs", "src/distance.rs"],
     [("query images that can be closer than the current k-th neighbour are searched as well", "src/query.rs, src/query_k.rs and the batch files"),
      ("distance to the far side of the box decides which images are tried", "src/distance.rs")],
     [], ["with_boxsize", "all query functions"], SIM + "answers against exhaustive search over all images")
prop("C05", "A shared tree answers any number of concurrent readers correctly",
     "Any number of threads, thread pools and nested parallel sections may query one tree at the same time with any mix of query kinds; each gets exactly the answer it would get alone. "
     "Asking the same question from several threads at once gives the same distances.",
     ["schedules", "histories", "inputs"],
     "every interleaving of any mix of queries on shared trees from client threads, pools, nested iterators and joins",
     "No test queries one tree from several threads of its own; the batch tests have a single caller.",
     ["src/query.rs", "src/query_k.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/lib.rs"],
     [("trees are immutable after the build and shared by reference", "src/lib.rs Send and Sync"), ("all search state is per call or per worker", "src/query_k")],
     [], ["all query functions"], SIM + "concurrent histories judged answer by answer")
prop("C06", "No data race, stray memory access or uninitialised result",
     "No use of the public interface, in any schedule, makes two threads access the same memory without ordering where one writes, reads or writes outside live memory, uses freed memory, "
     "frees twice, or returns memory that was never written. The caller's data and queries are never modified.",
     ["schedules", "histories", "inputs", "configurations"],
     "every interleaving of builds and queries of all kinds, and every content of the memory handed out by the allocator",
     "The unchecked accesses and raw-pointer writes stay silent in the tests unless memory happens to be corrupted visibly on the schedule the machine gave.",
     ["src/lib.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/query_k/container.rs", "src/query_k/container_axis.rs", "src/moms.rs"],
     [("raw pointers wrapped to cross threads, disjoint rows", "src/query_k/parallel*.rs"), ("unchecked indexing into nodes", "src/query.rs, src/query_k.rs"),
      ("uninitialised output buffers that every row must fill", "src/query_k/parallel*.rs")],
     [], ["every public function"], SIM + "happens-before race detection, fenced heap, poisoned fresh memory")
prop("C07", "Invalid or missing build data is reported as an error, never accepted",
     "Building from data with a NaN or infinite coordinate anywhere, or from no data, returns the corresponding error for every build function, split level and schedule; the reported point is one of the invalid ones. "
     "It never panics, hangs or yields a tree, and later builds and queries are unaffected.",
     ["inputs", "schedules", "histories"],
     "any number and position of invalid coordinates, any data size including none, any schedule of the checking workers",
     "No test passes invalid data to a build; the check runs in parallel, where which point is found first depends on the schedule.",
     ["src/lib.rs", "src/utils.rs"],
     [("validation before any unchecked use of the values", "src/utils.rs check_data, src/lib.rs Tree::new, Tree::new_parallel")],
     [], ["Tree::new", "Tree::new_parallel"], SIM + "expected errors, then continued use")
prop("C08", "An invalid query is reported with the offending point and has no after-effects",
     "A query with a NaN or infinite coordinate, alone or anywhere in a batch and on any worker, makes the call return an error carrying one of the invalid points; it never panics, hangs or returns rows. "
     "Calls made before, after or at the same time on the same tree and pool give their exact answers.",
     ["inputs", "schedules", "histories"],
     "any set of invalid entries in any batch, any number of concurrent and later calls, every schedule",
     "No test submits an invalid query, and what a worker leaves behind when a batch is abandoned half-way depends on the schedule.",
     ["src/utils.rs", "src/query.rs", "src/query_k.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs"],
     [("each query is checked before it is searched, errors short-circuit the batch", "src/query_k/parallel*.rs"), ("check_point_return", "src/utils.rs")],
     [], ["all query functions"], SIM + "expected errors within histories of valid calls")
prop("C09", "Builds and batches always finish, wherever they are called from",
     "A build or batch query called from an ordinary thread, from a thread pool of any size, from inside a parallel iterator or join, or several at once, always completes "
     "within a bounded number of steps under a fair schedule: no deadlock, lost wake-up or livelock, even with a single worker.",
     ["schedules", "configurations", "histories"],
     "every schedule, stall and spurious wake-up; pools of one worker and more; nesting and concurrency of calls",
     "Tests call everything from the main thread with the machine's own pool; a blocked worker needs nesting, small pools and unlucky timing.",
     ["src/lib.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/moms.rs"],
     [("subtrees joined in a way that never blocks a pool worker", "src/lib.rs fork_join"), ("parallel iterators", "src/query_k, src/utils.rs")],
     [], ["Tree::new", "Tree::new_parallel", "batch queries"], SIM + "deadlock detection and step bounds")
prop("C10", "Answers do not depend on schedule, worker count, split level or leaf size",
     "For the same points and query, the distances returned are the same for every schedule, pool, number of processors, split level and leaf size, and whether the build was serial or parallel. "
     "Repeating a call gives the same distances.",
     ["schedules", "configurations", "inputs"],
     "pairs of executions that differ only in schedule, machine, pool, split level or leaf size",
     "Each test runs one configuration per data set; results of two configurations or schedules are never compared on awkward data.",
     ["src/lib.rs", "src/query.rs", "src/query_k.rs", "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs"],
     [("one algorithm, several build paths", "src/lib.rs"), ("one search, several batch paths", "src/query_k")],
     [], ["all functions"], SIM + "answers of paired executions compared")
prop("C11", "A refused thread cannot corrupt anything",
     "When the system refuses to create a thread during a parallel build, the call either succeeds with a correct tree or fails cleanly; it never hangs, corrupts memory or yields a tree with wrong answers. "
     "Other threads' work is unaffected, and the same call succeeds once threads can be created again.",
     ["fault_sequences", "schedules", "histories"],
     "every pattern of refused thread creations, at every split level, with concurrent callers, in builds with and without the thread pool",
     "No test makes thread creation fail.",
     ["src/lib.rs"], [("scoped threads joined before the parent continues", "src/lib.rs fork_join, build_nodes_parallel")],
     [], ["Tree::new_parallel"], SIM + "thread creation refused at seeded points")
prop("C12", "Large trees and deep searches are exact with bounded stack and time",
     "At and beyond 100,000 points, where the median is found in parallel, trees are still exact for every arrangement of the points including heavy duplication and sorted input, and their build ends in time near-linear in the number of points. "
     "Searches that visit most of a deep tree use bounded stack, so they also complete on small worker stacks.",
     ["inputs", "schedules", "configurations"],
     "data sets of 100,000 to about 210,000 points of all arrangements, nested and pooled callers, searches for up to all points on stacks of 256 KB",
     "One example exceeds 100,000 points, with uniform data on default stacks, and it is compared with nothing that the duplicated or sorted case would upset.",
     ["src/lib.rs", "src/moms.rs", "src/query.rs", "src/query_k.rs"],
     [("parallel approximate median and partition", "src/moms.rs"), ("search with an explicit stack", "src/query.rs, src/query_k.rs")],
     [], ["Tree::new", "Tree::new_parallel", "query functions"], SIM + "large cases, sampled rows against exhaustive search, step and stack bounds")
prop("C13", "All memory is returned",
     "After a tree is dropped and its calls have ended, including calls that failed with an error and builds whose threads were refused, none of the memory the library allocated for them is left.",
     ["histories", "fault_sequences", "schedules"],
     "every history of builds, queries, errors and refused threads",
     "Tests never look at memory, and the raw output buffers are only owned by hand while a batch runs or fails.",
     ["src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs", "src/lib.rs"],
     [("output buffers are released on every path", "src/query_k/parallel*.rs")], [], ["all functions"],
     SIM + "every live heap block at the end of a run attributed to its allocation site")
prop("C15", "Returned positions, indices and distances describe the same point",
     "In the configurations that return positions, the position returned with a neighbour is bit for bit the input point with the returned index, and the distance is the distance to it (over images, with a periodic box), "
     "for every query kind, tree shape and build schedule.",
     ["inputs", "schedules", "configurations"],
     "all builds of the crate that return positions; every tree shape, build schedule and query",
     "The position tests sample uniform data and compare distances; nothing ties position, index and distance together after a scheduled parallel build.",
     ["src/query.rs", "src/query_k.rs", "src/query_k/container.rs", "src/lib.rs"],
     [("points carry their index and a reference to the position in the caller's data", "src/point.rs, src/lib.rs"), ("index from the pointer difference to the start of the data", "src/query.rs, src/query_k.rs")],
     [], ["query_nearest", "query_nearest_k"], SIM + "consistency of the three parts of every answer")
prop("C16", "Only boxes that fit the data are accepted",
     "Setting a periodic box succeeds exactly when the data has no coordinate below zero (-0.0 is not) and every side is finite and at least as long as the data's largest coordinate in that direction; otherwise the matching error is returned. "
     "The decision is the same for every build function, split level, leaf size and build schedule.",
     ["inputs", "schedules", "configurations"],
     "boxes that are tight, too small in one direction by little or much, NaN or infinite in one component; data with negative coordinates; every build schedule",
     "No test sets an improper box, and the bounds of the data come out of the (parallel) build.",
     ["src/lib.rs"],
     [("bounding box of the root compared with the box", "src/lib.rs Tree::with_boxsize"), ("space bounds computed during the build", "src/lib.rs")],
     [("root bounds", "bounding box of all of the data", "src/lib.rs Node")], ["with_boxsize"], SIM + "expected verdict on the box, then periodic queries")
# EXTRA
prop("C14", "The Python classes give exact answers, in shape, and raise clean errors",
     "Treef32 and Treef64, built from any C-contiguous (n, 2) or (n, 3) array with any leafsize, par_split_level and boxsize, answer query exactly: "
     "k omitted or 1 gives arrays of shape (m,), any other k arrays of shape (m, min(k, n)), row i belonging to query i, nearest first; axis gives the two components of the distance instead of distances and indices. "
     "The answers hold whatever the caller does with its references to the array after the build, for every thread count and schedule. "
     "Bad input (no data, non-finite data or queries, wrong shapes or types, arrays that are not contiguous, an improper box, an axis that does not exist) raises an ordinary exception (ValueError or TypeError, never a panic), "
     "does not hang, and leaves the classes usable. No memory is left when tree and results are released.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all input arrays, parameters, machines, schedules of the worker threads and orders in which the caller releases its objects",
     "tests/test.py makes one tree and two queries with kept arrays and compares the indices with scipy.",
     ["pyfnntw/src/lib.rs"],
     [("numpy memory is read as a slice of points", "pyfnntw/src/lib.rs slice_as_chunks"), ("rows written by workers through raw pointers", "pyfnntw/src/lib.rs query_k"), ("array kept alive by the tree object", "pyfnntw/src/lib.rs Treef32, Treef64")],
     [("array", "reference to the numpy array whose memory the tree borrows", "pyfnntw/src/lib.rs")], ["Treef32(...)", "Treef64(...)", "query"],
     SIM + "the extension under the interpreter, exhaustive search, exception types, heap checks on numpy's buffers")

NOTE = {
    "C06": "Seeded sampling of schedules and inputs; races are found on the explored interleavings by happens-before order. Weak-memory effects beyond that, and races inside rayon and crossbeam themselves, are not judged.",
    "C09": "A run that exceeds its step bound or in which every thread is blocked is a violation; progress is judged on the sampled schedules, which are fair after their faults.",
    "C11": "Thread creation is refused for std threads the build starts; a panic that names the refused thread counts as a clean failure, as std's own spawn does.",
    "C14": "The extension and all Rust code below it run in the simulation; the interpreter and numpy are native and single-threaded (the extension holds the GIL). Input arrays live in the simulated heap, so a use after their release is seen.",
    "C13": "Blocks still held by rayon, crossbeam and std (thread pools, thread-locals) are attributed by their allocation stack and not counted.",
}
GEN = "Seeded sampling of cases, schedules and faults on the real compiled code with every seed repeatable; no claim beyond what was run. Trusts the simulator runtime, the exhaustive-search model and the nightly compiler that instruments the build."

NA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bash sim/setup.sh",
         "checks": [dict(property=p["id"], quick_cmd=f"bin/check {p['id']}", thorough_cmd=f"bin/check {p['id']} --tier thorough",
                         technique=tech, level="exploration", level_note=(NOTE.get(p["id"], "") + " " + GEN).strip()) for p, tech, _ in P],
         "not_applicable": NA,
         "notes": "No hooks in /repo: the seams are the allocator, libc's thread and futex calls and the compiler's thread-sanitizer instrumentation, all outside the sources. bin/check PROP --replay FILE replays a violation."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
