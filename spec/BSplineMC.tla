------------------------------ MODULE BSplineMC ------------------------------
(* Facts behind C17 for all small knot vectors, clamped or not, with repeated *)
(* knots: the rows the specification evaluates with are the basis functions  *)
(* of the textbook definition (Cox-de Boor on half-open intervals).          *)
EXTENDS Spline, IOUtils
MaxO == atoi(IOEnv.MAXO)
MaxS == atoi(IOEnv.MAXS)
VARIABLES o, gaps, done
vars == <<o, gaps, done>>
Init == o \in 0 .. MaxO /\ gaps = <<>> /\ done = FALSE
\* grow the knot vector; gaps in units of 1/2
Next == \/ ~done /\ Len(gaps) < 2 * o + MaxS /\ \E g \in 0 .. 2 : gaps' = Append(gaps, g) /\ UNCHANGED <<o, done>>
        \/ ~done /\ Len(gaps) >= 2 * o + 1 /\ gaps[o + 1] > 0 /\ gaps[Len(gaps) - o] > 0 /\ done' = TRUE /\ UNCHANGED <<o, gaps>>
RECURSIVE Ts(_, _)
Ts(i, acc) == IF i > Len(gaps) THEN acc ELSE Ts(i + 1, Append(acc, acc[i] ++ (RatHalf ** gaps[i])))
Axis == LET ts == Ts(1, <<"-1">>) IN
        [o |-> o, p |-> FALSE, u |-> FALSE, n |-> 0, m |-> Len(ts) - o - 1, x |-> <<>>, t |-> TLCEval([i \in 0 .. Len(ts) - 1 |-> ts[i + 1]])]
\* textbook definition
RECURSIVE N(_, _, _, _)
N(t, i, q, x) ==
    IF q = 0 THEN IF RatLeq(t[i], x) /\ RatLt(x, t[i + 1]) THEN "1" ELSE "0"
    ELSE Quot(x -- t[i], N(t, i, q - 1, x), t[i + q] -- t[i])
         ++ Quot(t[i + q + 1] -- x, N(t, i + 1, q - 1, x), t[i + q + 1] -- t[i + 1])
Inside(a) == { x \in { a.t[k] : k \in SegLo(a) .. SegHi(a) } \cup { (a.t[k] ++ a.t[k + 1]) ** RatHalf : k \in SegLo(a) .. SegHi(a) } : RatLt(x, Hi(a)) }
IsBasis == done => LET a == Axis IN \A x \in Inside(a) :
    LET l == Local(a, x, 0) IN \A j \in 0 .. a.m - 1 :
        RatEq(N(a.t, j, o, x), IF j >= l.k - o /\ j <= l.k THEN l.b[j - (l.k - o) + 1] ELSE 0)
Unity == done => LET a == Axis IN \A x \in Inside(a) \cup {Hi(a), Lo(a) -- 1, Hi(a) ++ 1} :
    LET l == Local(a, x, 0) IN RatEq(RatSum(LAMBDA s : l.b[s], 1, o + 1), 1)
\* highest derivative of each piece by exact differences
RECURSIVE FD(_, _, _, _, _)
FD(a, k, s, x, r) == IF r = 0 THEN Row(a.t, k, a.o, 0, x)[s] ELSE FD(a, k, s, x ++ 1, r - 1) -- FD(a, k, s, x, r - 1)
Top == done => LET a == Axis IN \A k \in { k \in SegLo(a) .. SegHi(a) : RatLt(a.t[k], a.t[k + 1]) }, s \in 1 .. o + 1 :
    RatEq(FD(a, k, s, a.t[k], o), Row(a.t, k, o, o, a.t[k])[s])
=============================================================================
