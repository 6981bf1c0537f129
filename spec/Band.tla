-------------------------------- MODULE Band --------------------------------
(***************************************************************************)
(* Band matrices and the LU solver as a state machine of objects.          *)
(* mt : slot -> [n, p, q, x, a]  size, lower and upper bandwidth, extended *)
(*      by full last q rows and last p columns?, elements (flat, rationals)*)
(* lu : slot -> [m, fac]  the matrix the solver was built from             *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC

VARIABLES mt, lu
bvars == <<mt, lu>>
BInit == mt = <<>> /\ lu = <<>>
PutB(S, i, v) == (i :> v) @@ S
DropB(S, i) == [j \in DOMAIN S \ {i} |-> S[j]]

\* is element (i, j) (0-based) stored
Main(M, i, j) == i <= j + M.p /\ j <= i + M.q
Stored(M, i, j) == Main(M, i, j) \/ (M.x /\ (i >= M.n - M.q \/ j >= M.n - M.p))
At(M, i, j) == M.a[i * M.n + j + 1]
\* stored positions in row-major order
StoredSeq(M) == SelectSeq([k \in 1 .. M.n * M.n |-> k], LAMBDA k : Stored(M, (k - 1) \div M.n, (k - 1) % M.n))
Valid(n, p, q, x) == n >= 1 /\ (x => p < n /\ q < n)

Zero(n) == [k \in 1 .. n * n |-> "0"]
MNew(i, n, p, q, x) == /\ Valid(n, p, q, x)
                       /\ mt' = PutB(mt, i, [n |-> n, p |-> p, q |-> q, x |-> x, a |-> Zero(n)])
                       /\ UNCHANGED lu
\* the stored elements take the values in row-major order
RECURSIVE Spread(_, _, _, _, _)
Spread(M, vals, k, next, acc) ==
    IF k > M.n * M.n THEN acc
    ELSE IF Stored(M, (k - 1) \div M.n, (k - 1) % M.n) THEN Spread(M, vals, k + 1, next + 1, Append(acc, RatNorm(vals[next])))
    ELSE Spread(M, vals, k + 1, next, Append(acc, "0"))
MFill(i, vals) ==
    /\ Len(vals) = Len(StoredSeq(mt[i]))
    /\ mt' = PutB(mt, i, [mt[i] EXCEPT !.a = TLCEval(Spread(mt[i], vals, 1, 1, <<>>))])
    /\ UNCHANGED lu
MSet(i, r, c, v) == /\ Stored(mt[i], r, c)
                    /\ mt' = PutB(mt, i, [mt[i] EXCEPT !.a[r * mt[i].n + c + 1] = RatNorm(v)])
                    /\ UNCHANGED lu
MCopy(i, s) == s \in DOMAIN mt /\ mt' = PutB(mt, i, mt[s]) /\ UNCHANGED lu
MMove(i, s) == s \in DOMAIN mt /\ i # s /\ mt' = PutB(DropB(mt, s), i, mt[s]) /\ UNCHANGED lu
\* from: by copy (the matrix stays) or by giving it away
LUNew(l, i, gone) == /\ i \in DOMAIN mt
                     /\ lu' = PutB(lu, l, mt[i])
                     /\ mt' = IF gone THEN DropB(mt, i) ELSE mt
LUCopy(l, s) == s \in DOMAIN lu /\ lu' = PutB(lu, l, lu[s]) /\ UNCHANGED mt
LUMove(l, s) == s \in DOMAIN lu /\ l # s /\ lu' = PutB(DropB(lu, s), l, lu[s]) /\ UNCHANGED mt

-----------------------------------------------------------------------------
RowTimes(M, i, x) == RatSum(LAMBDA j : IF RatEq(At(M, i, j), 0) THEN "0" ELSE At(M, i, j) ** x[j + 1], 0, M.n - 1)
RowMag(M, i, x) == RatSum(LAMBDA j : IF RatEq(At(M, i, j), 0) THEN "0" ELSE RatAbs(At(M, i, j) ** x[j + 1]), 0, M.n - 1)
MaxA(s) == LET RECURSIVE Mx(_, _)
               Mx(k, acc) == IF k > Len(s) THEN acc ELSE Mx(k + 1, RatMax(acc, RatAbs(s[k])))
           IN Mx(1, "0")
AllNum(s) == \A k \in 1 .. Len(s) : RatIsNum(s[k])

DumpOk(M, vals) ==
    LET ss == StoredSeq(M)
    IN /\ Len(vals) = Len(ss) /\ AllNum(vals)
       /\ \A k \in 1 .. Len(ss) : RatEq(vals[k], M.a[ss[k]])
MulOk(M, x, y, tol) ==
    /\ Len(y) = M.n /\ AllNum(y)
    /\ \A i \in 0 .. M.n - 1 : RatNear(y[i + 1], RowTimes(M, i, x), tol ** RowMag(M, i, x))
\* backward error: growth bounds the elements of the triangular factors
SolveOk(M, b, x, tol, growth) ==
    /\ Len(x) = M.n /\ AllNum(x)
    /\ LET e == tol ** ((growth ** (M.n ** MaxA(x))) ++ MaxA(b))
       IN \A i \in 0 .. M.n - 1 : RatNear(RowTimes(M, i, x), b[i + 1], e)
=============================================================================
