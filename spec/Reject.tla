------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Which input must be reported by an assertion build, and which must not. *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC

(* Interpolation axes: [p, u, n, x]; n is the number of nodes the data      *)
(* provides for (the end of the period included), x the coordinates given. *)
Increasing(x) == /\ \A i \in 1 .. Len(x) : RatIsNum(x[i])
                 /\ \A i \in 1 .. Len(x) - 1 : RatLt(x[i], x[i + 1])
AxisConsistent(a) == a.u \/ (Len(a.x) = a.n /\ Increasing(a.x))
AxesOutcome(ax) == IF \A d \in 1 .. Len(ax) : AxisConsistent(ax[d]) THEN "ok" ELSE "runtime_error"

(* Knots and control points: [p, m, t] *)
KnotCount(o, p, m) == m + o + 1 + (IF p THEN o ELSE 0)
KnotsOutcome(o, ax) == IF \A d \in 1 .. Len(ax) : Len(ax[d].t) = KnotCount(o, ax[d].p, ax[d].m)
                       THEN "ok" ELSE "runtime_error"

(* Mesh elements: the position, or an error *)
InMesh(dims, i) == \A d \in 1 .. Len(dims) : 0 <= i[d] /\ i[d] < dims[d]
RECURSIVE PosFrom(_, _, _, _)
PosFrom(dims, i, d, acc) == IF d > Len(dims) THEN acc ELSE PosFrom(dims, i, d + 1, acc * dims[d] + i[d])
MeshOutcome(dims, i) == IF InMesh(dims, i) THEN ToString(PosFrom(dims, i, 1, 0)) ELSE "runtime_error"

(* Matrix elements.  Paths: 0, 1 element access, 2, 3 only the main band,   *)
(* 4, 5 only the side bands of an extended matrix                           *)
Main(n, p, q, i, j) == i <= j + p /\ j <= i + q
Side(n, p, q, i, j) == ~Main(n, p, q, i, j) /\ (i >= n - q \/ j >= n - p)
BandOutcome(n, p, q, x, path, i, j) ==
    IF CASE path \in {0, 1} -> Main(n, p, q, i, j) \/ (x /\ Side(n, p, q, i, j))
         [] path \in {2, 3} -> Main(n, p, q, i, j)
         [] OTHER -> Side(n, p, q, i, j)
    THEN "ok" ELSE "runtime_error"
=============================================================================
