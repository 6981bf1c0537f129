------------------------------ MODULE SplineMC ------------------------------
(***************************************************************************)
(* Model checking of the spline theory on families of axes: the facts      *)
(* the properties C01-C05 and C17 rest on.                                 *)
(***************************************************************************)
EXTENDS Spline, IOUtils

MaxO == IF "MAXO" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXO) ELSE 3
MaxExtra == IF "MAXEXTRA" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXEXTRA) ELSE 2

\* mild and uneven spacings, by pattern number
Gap(pat, i) == CASE pat = 0 -> 1 [] pat = 1 -> 1 + (i % 2) [] OTHER -> 1 + ((i * i + 1) % 3)
RECURSIVE PatNodes(_, _)
PatNodes(pat, n) == IF n = 1 THEN <<"-1/2">>
                    ELSE LET r == PatNodes(pat, n - 1)
                         IN Append(r, r[n - 1] ++ (RatHalf ** Gap(pat, n - 2)))

VARIABLES o, p, pat, ex
vars == <<o, p, pat, ex>>
Init == o \in 0 .. MaxO /\ p \in BOOLEAN /\ pat \in 0 .. 2 /\ ex \in 0 .. MaxExtra
Next == UNCHANGED vars
Ax == IF pat = 0
      THEN LET n == MinNodes(o, p) + ex IN UniAxis(o, p, IF n < 2 THEN 2 ELSE n, "-1/2", "3")
      ELSE LET n == MinNodes(o, p) + ex IN NonAxis(o, p, PatNodes(pat, IF n < 2 THEN 2 ELSE n))

A == TLCEval(Ax)
\* probe points: nodes, knots of the range, points inside segments, outside
Probes(a) ==
    { a.x[i] : i \in 0 .. a.n - 1 } \cup { a.t[k] : k \in SegLo(a) .. SegHi(a) + 1 }
    \cup { (RatOf(1, 3) ** a.t[k]) ++ (RatOf(2, 3) ** a.t[k + 1]) : k \in SegLo(a) .. SegHi(a) }
    \cup { Lo(a) -- "3/4", Hi(a) ++ "5/4" }

KnotCount == LET a == Ax IN
    Cardinality(DOMAIN a.t) = a.m + a.o + 1 + (IF a.p THEN a.o ELSE 0)
KnotsSorted == LET a == Ax IN
    /\ \A k \in SegLo(a) .. SegHi(a) : RatLt(a.t[k], a.t[k + 1])
    /\ \A k \in 0 .. Cardinality(DOMAIN a.t) - 2 : RatLeq(a.t[k], a.t[k + 1])
\* the range of an aperiodic axis is spanned by its nodes
RangeOk == LET a == Ax IN
    IF a.p THEN RatEq(Period(a), a.x[a.n - 1] -- a.x[0])
    ELSE RatEq(Lo(a), a.x[0]) /\ RatEq(Hi(a), a.x[a.n - 1])
PartitionOfUnity == LET a == Ax IN \A x \in Probes(a) :
    LET l == Local(a, x, 0) IN RatEq(RatSum(LAMBDA s : l.b[s], 1, a.o + 1), 1)
DerivativesSumToZero == LET a == Ax IN \A x \in Probes(a), r \in 1 .. a.o :
    LET l == Local(a, x, r) IN RatEq(RatSum(LAMBDA s : l.b[s], 1, a.o + 1), 0)
NonNegative == LET a == Ax IN \A x \in Probes(a) :
    (a.p \/ (RatLeq(Lo(a), x) /\ RatLeq(x, Hi(a)))) =>
        LET l == Local(a, x, 0) IN \A s \in 1 .. a.o + 1 : RatLeq(0, l.b[s])
\* every data set has exactly one interpolating spline, found without pivoting
UniqueSolution == SolvableNoPivot(Ax)
\* control points of the identity and of squares exist: polynomials of degree
\* <= o are splines of an aperiodic axis (Marsden, via Greville abscissae)
Identity == LET a == Ax IN (~a.p /\ a.o >= 1) =>
    LET c == [q \in 1 .. a.m |-> RatSum(LAMBDA k : a.t[k], q, q + a.o - 1) // a.o]
    IN \A x \in Probes(a) : RatEq(SplineAt(<<a>>, c, <<x>>, <<0>>), x)
\* continuity of derivatives below the order at interior breakpoints
Smooth == LET a == Ax IN \A k \in SegLo(a) + 1 .. SegHi(a), r \in 0 .. a.o - 1 :
    LET L == Row(a.t, k - 1, a.o, r, a.t[k])
        R == Row(a.t, k, a.o, r, a.t[k])
    IN /\ RatEq(L[1], 0) \/ a.o = 0
       /\ \A s \in 2 .. a.o + 1 : RatEq(L[s], R[s - 1])
       /\ RatEq(R[a.o + 1], 0)
\* shifting by periods changes nothing
Periodic == LET a == Ax IN a.p => \A x \in Probes(a), q \in {-3, -1, 1, 4}, r \in 0 .. a.o :
    Local(a, x, r) = Local(a, x ++ (q ** Period(a)), r)
\* the derivative rows are the derivatives of the value rows: compare with an
\* exact finite difference of the polynomial piece (degree o needs o+1 points)
RECURSIVE FD(_, _, _, _, _)
FD(a, k, s, x, r) ==     \* r-th forward difference with step 1, exact for degree r
    IF r = 0 THEN Row(a.t, k, a.o, 0, x)[s]
    ELSE FD(a, k, s, x ++ 1, r - 1) -- FD(a, k, s, x, r - 1)
TopDerivative == LET a == Ax IN \A k \in SegLo(a) .. SegHi(a), s \in 1 .. a.o + 1 :
    RatEq(FD(a, k, s, a.t[k], a.o), Row(a.t, k, a.o, a.o, a.t[k])[s])
=============================================================================
