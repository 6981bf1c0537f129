"""Technique and assurance of each claimed property (used by mkmanifest.py)."""
_S = ("TLC checks the exact spline specification (Spline, SplineMC); scenarios computed from it by TLC are executed by a "
      "recorder compiled from /repo and the recorded traces are validated by TLC against Session")
_N = ("The mathematics is model checked on bounded families of axes; the code is bound to it on the explored scenarios "
      "(every axis kind, orders 0-7, 1-4 dimensions, sizes from the smallest), results compared with exact rational "
      "arithmetic up to rounding. Trusts TLC, java/Rat.java (self-checked by RatCheck) and the recorder. ")
LEVELS = {
    "C01": (_S, _N), "C02": (_S, _N), "C03": (_S, _N), "C04": (_S, _N), "C05": (_S, _N),
    "C06": ("TLC explores histories of the object graph (Hist: build, copy, move, interpolate into, destroy) and emits them; "
            "a recorder executes them on the real objects and TLC validates every trace against Session",
            "Histories are exhaustive up to the bound of Hist.cfg in the abstract; a covering set of them is replayed. " + _N),
    "C07": (_S + "; proxies are a transition of Session of their own", _N),
    "C08": ("the same TLC-generated scenarios are executed by recorders compiled with every documented macro combination and "
            "C++11 to C++23, each trace validated by TLC against the one Session specification", _N),
    "C09": ("TLC checks ParBuild (block division, passes, failing blocks); concurrent sessions generated from the specification run "
            "under a deterministic scheduler (random and PCT schedules), the thread sanitizer and the address sanitizer, and every "
            "distinct trace is validated by TLC against Session", "Schedules are sampled, not exhausted; switches happen at "
            "synchronisation operations, atomics and some plain accesses. " + _N),
    "C10": ("TLC checks TaskPool and that PoolImpl (locks, batches, stealing, shutdown) refines it; programs generated by TLC run on "
            "the real pool under a deterministic scheduler (bounded-preemption DFS, random, PCT) and free-running, and every "
            "distinct trace is validated by TLC against TaskPool (TracePool)",
            "PoolImpl is exhaustive for 2 workers, up to 4 tasks, batch size 2. On the code: small programs with all schedules of "
            "bounded preemptions, larger ones sampled."),
    "C11": ("TLC checks termination and completeness of PoolImpl without fairness of locks (and that 5 broken variants fail); programs "
            "generated by TLC run on the real pool under a deterministic scheduler that reports threads that can never go on; traces "
            "are validated by TLC (TracePool)", "As C10."),
    "C12": ("TLC checks Band/BandMC (matrix semantics and exact LU) and generates matrices; recorded traces of the real matrix "
            "and solver classes are validated by TLC (TraceBand)", "Bounded sizes and bandwidths, exact rational oracle."),
    "C13": ("TLC checks MeshArray (row-major bijection, line views) and generates access histories; recorded traces of the real "
            "Mesh are validated by TLC (TraceMesh)", "Bounded shapes up to 4 dimensions."),
    "C14": ("TLC-generated scenarios of every specification, with extreme but valid inputs, are executed by recorders built with "
            "address/undefined/uninitialised-memory instrumentation; every trace must also be a behaviour of its specification",
            "Errors are detected on the executed scenarios only."),
    "C15": ("Reject.tla specifies which inputs are inconsistent; TLC generates good and bad inputs (GenReject) and validates the "
            "recorded outcomes (TraceReject) of an instrumented assertion build", "Bounded sizes; errors located on executed scenarios."),
    "C16": (_S + "; instances with float, double, long double, complex and user-defined values", _N),
    "C17": ("TLC checks BSplineMC and generates knot vectors/control points (GenBSpline); recorded traces of the real BSpline "
            "class are validated by TLC against the exact basis functions", _N),
    "C18": (_S + "; one scenario is built through all construction and query routes", _N),
    "C19": ("TLC checks Alloc/AllocMC (disjoint aligned blocks, LIFO region) and generates allocation and container histories (GenAlloc); "
            "recorded traces of the real allocators and helpers are validated by TLC (TraceAlloc)",
            "Alignments 8-64, element sizes 1-24 bytes, up to 6 live blocks; helpers on tables of inputs."),
    "C20": ("TLC checks SharedRead (concurrent reads observe what each would alone; 3 broken variants fail); several threads execute "
            "TLC-generated const calls on shared real objects under a deterministic scheduler (random, PCT, switching at memory "
            "accesses) and under ThreadSanitizer; every distinct outcome is validated by TLC against the sequential Session",
            "Schedules are sampled on the code; data races are also detected by ThreadSanitizer on the executed calls."),
    "C21": ("TLC checks Hist with failing operations (nothing but the object being overwritten changes) and prints its transition graph; "
            "tours through it are executed by recorders in which every allocation of an operation fails in turn, or a value throws; "
            "the recorded attempts, what they left allocated and all later observations are validated by TLC (TraceSession)",
            "Fault points are exhaustive for the first 24 allocations of an operation, then sampled; two templates, two functions, one proxy."),
}
NA = {}
