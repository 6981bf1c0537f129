------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* What an interpolation function is: exact, executable mathematics of     *)
(* tensor product B-spline interpolation, over the rationals of Rat.       *)
(*                                                                         *)
(* An axis is one dimension of a mesh:                                     *)
(*   o  order of the spline        p  periodic?       u  uniform?          *)
(*   n  number of nodes (the end of the period is the last node of a       *)
(*      periodic axis)             m  number of data = control points      *)
(*   x  nodes  [0..n-1 -> Rat]     t  knots [0..K-1 -> Rat]                *)
(* A spline over axes <<a1, ..., aD>> is given by its control points, a    *)
(* flat row-major sequence of length m1 * ... * mD.                        *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC

Even(k) == k % 2 = 0

MinNodes(o, p) == IF p THEN (IF Even(o) THEN o + 2 ELSE o + 1) ELSE o + 1

-----------------------------------------------------------------------------
(* Nodes and knots *)

UniformNodes(lo, hi, n) ==
    TLCEval([i \in 0 .. n - 1 |-> lo ++ (RatOf(i, n - 1) ** (hi -- lo))])

\* Nodes of a periodic axis continued periodically to any integer index
PerNode(x, n, i) ==
    LET m == n - 1
        q == i \div m
        r == i % m
    IN  x[r] ++ (q ** (x[m] -- x[0]))

\* Interior knots of an aperiodic axis are averages of o consecutive nodes
\* (midpoints for order 0); the end knots have multiplicity o + 1.
AperKnots(o, n, x) ==
    [i \in 0 .. n + o |->
        IF i <= o THEN RatNorm(x[0])
        ELSE IF i >= n THEN RatNorm(x[n - 1])
        ELSE IF o = 0 THEN RatHalf ** (x[i - 1] ++ x[i])
        ELSE RatSum(LAMBDA k : x[k], i - o, i - 1) // o]

\* Knots of a periodic axis are the nodes for odd order, and the midpoints
\* between nodes for even order; knot o starts the period.
PerKnots(o, n, x) ==
    [i \in 0 .. n + 2 * o - 1 |->
        IF Even(o) THEN RatHalf ** (PerNode(x, n, i - o - 1) ++ PerNode(x, n, i - o))
        ELSE RatNorm(PerNode(x, n, i - o))]

MkAxis(o, p, u, n, x) ==
    [o |-> o, p |-> p, u |-> u, n |-> n, m |-> IF p THEN n - 1 ELSE n,
     x |-> x, t |-> TLCEval(IF p THEN PerKnots(o, n, x) ELSE AperKnots(o, n, x))]

UniAxis(o, p, n, lo, hi) == MkAxis(o, p, TRUE, n, UniformNodes(lo, hi, n))
NonAxis(o, p, xs) ==        \* xs: sequence of nodes
    MkAxis(o, p, FALSE, Len(xs), TLCEval([i \in 0 .. Len(xs) - 1 |-> RatNorm(xs[i + 1])]))

\* First and last segment (a segment is named by its left knot)
SegLo(a) == a.o
SegHi(a) == a.o + a.m - 1 - (IF a.p THEN 0 ELSE a.o)
Lo(a) == a.t[SegLo(a)]
Hi(a) == a.t[SegHi(a) + 1]
Period(a) == Hi(a) -- Lo(a)

-----------------------------------------------------------------------------
(* Locating a coordinate *)

Fold(a, x) ==
    IF ~a.p THEN x
    ELSE x -- (RatFloor((x -- Lo(a)) // Period(a)) ** Period(a))

\* Largest segment in lo..hi whose left knot is <= x (lo if there is none)
RECURSIVE SegSearch(_, _, _, _)
SegSearch(a, x, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF RatLeq(a.t[mid], x) THEN SegSearch(a, x, mid, hi)
             ELSE SegSearch(a, x, lo, mid - 1)

\* For a folded coordinate.  Beyond the ends the end segments are continued.
Segment(a, x) == SegSearch(a, x, SegLo(a), SegHi(a))

-----------------------------------------------------------------------------
(* B-spline basis.  Row(t, k, q, r, x) is the sequence of the r-th         *)
(* derivatives of B_{k-q}, ..., B_k of degree q on segment k, as           *)
(* polynomials in x; 0/0 = 0 in the recursions.                            *)

Quot(c, num, den) == IF RatEq(den, 0) THEN "0" ELSE (c ** num) // den

RECURSIVE Row(_, _, _, _, _)
Row(t, k, q, r, x) ==
    IF q = 0 THEN IF r = 0 THEN <<"1">> ELSE <<"0">>
    ELSE
    LET prev == TLCEval(Row(t, k, q - 1, IF r > 0 THEN r - 1 ELSE 0, x))
        \* prev[s] is function number k - q + s, s \in 1..q
        P(s) == IF s < 1 \/ s > q THEN "0" ELSE prev[s]
    IN TLCEval([s \in 1 .. q + 1 |->
          LET i == k - q + s - 1          \* number of this function
              d1 == IF s = 1 THEN "0" ELSE t[i + q] -- t[i]
              d2 == IF s = q + 1 THEN "0" ELSE t[i + q + 1] -- t[i + 1]
          IN IF r = 0
             THEN (IF s = 1 THEN "0" ELSE Quot(P(s - 1), x -- t[i], d1))
                  ++ (IF s = q + 1 THEN "0" ELSE Quot(P(s), t[i + q + 1] -- x, d2))
             ELSE Quot(P(s - 1), q, d1) -- Quot(P(s), q, d2)])

\* Local basis of an axis at a coordinate: segment and row
Local(a, x, r) ==
    LET y == Fold(a, x)
        k == Segment(a, y)
    IN [k |-> k, b |-> Row(a.t, k, a.o, r, y)]

AbsSum(row) == RatSum(LAMBDA s : RatAbs(row[s]), 1, Len(row))

\* Control point that multiplies function number j of an axis
Ctrl(a, j) == IF a.p THEN j % a.m ELSE j

-----------------------------------------------------------------------------
(* Tensor product *)

RECURSIVE Contract(_, _, _, _, _)
Contract(axes, loc, d, off, c) ==
    IF d > Len(axes) THEN c[off + 1]
    ELSE RatSum(LAMBDA s :
            IF RatEq(loc[d].b[s], 0) THEN "0"
            ELSE loc[d].b[s] **
                 Contract(axes, loc, d + 1,
                          off * axes[d].m + Ctrl(axes[d], loc[d].k - axes[d].o + s - 1), c),
            1, axes[d].o + 1)

Locals(axes, x, r) == TLCEval([d \in 1 .. Len(axes) |-> Local(axes[d], x[d], r[d])])

\* Value (r = <<0,...>>) or mixed derivative r of the spline with control points c
SplineAt(axes, c, x, r) ==
    IF \E d \in 1 .. Len(axes) : r[d] > axes[d].o THEN "0"
    ELSE Contract(axes, Locals(axes, x, r), 1, 0, c)

RECURSIVE Prod(_, _, _)
Prod(F(_), a, b) == IF a > b THEN 1 ELSE F(a) * Prod(F, a + 1, b)
DataSize(axes) == Prod(LAMBDA d : axes[d].m, 1, Len(axes))

\* Index along axis d of flat position q (0-based)
Stride(axes, d) == Prod(LAMBDA e : axes[e].m, d + 1, Len(axes))
IdxAt(axes, d, q) == (q \div Stride(axes, d)) % axes[d].m

-----------------------------------------------------------------------------
(* Collocation: values of a spline at the nodes.                           *)

NodeLocal(a) ==     \* basis at each data node
    TLCEval([i \in 0 .. a.m - 1 |-> TLCEval(Local(a, a.x[i], 0))])

ApplyAxis(axes, d, c) ==
    LET a == axes[d]
        nl == NodeLocal(a)
        st == Stride(axes, d)
    IN TLCEval([q1 \in 1 .. DataSize(axes) |->
          LET q == q1 - 1
              i == IdxAt(axes, d, q)
              base == q - i * st
              loc == nl[i]
          IN RatSum(LAMBDA s : IF RatEq(loc.b[s], 0) THEN "0"
                               ELSE loc.b[s] ** c[base + Ctrl(a, loc.k - a.o + s - 1) * st + 1],
                    1, a.o + 1)])

RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(axes, d, c) ==
    IF d > Len(axes) THEN c ELSE ApplyFrom(axes, d + 1, ApplyAxis(axes, d, c))

\* Flat row-major data of the spline with control points c
DataOf(axes, c) == ApplyFrom(axes, 1, c)

-----------------------------------------------------------------------------
(* Uniqueness: dense collocation matrix of one axis and its determinant.   *)

CollocRow(a, i) ==
    LET loc == Local(a, a.x[i], 0)
    IN [j \in 0 .. a.m - 1 |->
          RatSum(LAMBDA s : IF Ctrl(a, loc.k - a.o + s - 1) = j THEN loc.b[s] ELSE "0",
                 1, a.o + 1)]
CollocMatrix(a) == TLCEval([i \in 0 .. a.m - 1 |-> TLCEval(CollocRow(a, i))])

\* Gaussian elimination without pivoting; TRUE iff all pivots are nonzero
RECURSIVE Elim(_, _, _)
Elim(M, n, k) ==
    IF k = n THEN TRUE
    ELSE IF RatEq(M[k][k], 0) THEN FALSE
    ELSE Elim(TLCEval([i \in 0 .. n - 1 |->
                 IF i <= k \/ RatEq(M[i][k], 0) THEN M[i]
                 ELSE LET f == M[i][k] // M[k][k]
                      IN TLCEval([j \in 0 .. n - 1 |->
                            IF j < k THEN M[i][j] ELSE M[i][j] -- (f ** M[k][j])])]), n, k + 1)

\* The library factorises with rows rotated by o \div 2 in periodic axes, so
\* that the largest entries are on the diagonal.
SolvableNoPivot(a) ==
    LET M == CollocMatrix(a)
        sh == IF a.p THEN a.o \div 2 ELSE 0
    IN Elim(TLCEval([i \in 0 .. a.m - 1 |-> M[(i - sh + a.m) % a.m]]), a.m, 0)
=============================================================================
