------------------------------- MODULE BandMC -------------------------------
(* The band structure is closed under factorisation without pivoting, and  *)
(* the elimination on stored elements alone yields L and U with L U = A:   *)
(* checked for all small sizes and bandwidths on matrices with symbolic-   *)
(* like (pairwise different) rational entries.                             *)
EXTENDS Band, IOUtils
MaxN == IF "MAXN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXN) ELSE 5
MaxB == IF "MAXB" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXB) ELSE 3
VARIABLE c
Init == c = <<>> /\ BInit
Next == /\ c = <<>>
        /\ \E n \in 1 .. MaxN, p, q \in 0 .. MaxB, x \in BOOLEAN :
              Valid(n, p, q, x) /\ c' = <<n, p, q, x>>
        /\ UNCHANGED bvars
Mat == LET n == c[1]
           M0 == [n |-> n, p |-> c[2], q |-> c[3], x |-> c[4], a |-> <<>>]
       IN [M0 EXCEPT !.a = [k \in 1 .. n * n |->
              LET i == (k - 1) \div n
                  j == (k - 1) % n
              IN IF i = j THEN RatOf(7 * n + k, 1) ELSE IF Stored(M0, i, j) THEN RatOf(2 * k + 3, 1 + ((i + 2 * j) % 3)) ELSE "0"]]
\* one elimination step, dense
Step(a, n, k) == TLCEval([r \in 1 .. n * n |->
    LET i == (r - 1) \div n
        j == (r - 1) % n
    IN IF i <= k \/ j < k THEN a[r]
       ELSE IF j = k THEN a[r] // a[k * n + k + 1]
       ELSE a[r] -- ((a[i * n + k + 1] // a[k * n + k + 1]) ** a[k * n + j + 1])])
RECURSIVE Fac(_, _, _)
Fac(a, n, k) == IF k = n - 1 THEN a ELSE Fac(Step(a, n, k), n, k + 1)
Closed == c # <<>> => LET M == Mat
                          F == Fac(M.a, M.n, 0)
                      IN \A i, j \in 0 .. M.n - 1 : ~Stored(M, i, j) => RatEq(F[i * M.n + j + 1], 0)
LUisA == c # <<>> => LET M == Mat
                         n == M.n
                         F == Fac(M.a, n, 0)
                         L(i, k) == IF i = k THEN "1" ELSE IF k < i THEN F[i * n + k + 1] ELSE "0"
                         U(k, j) == IF k <= j THEN F[k * n + j + 1] ELSE "0"
                     IN \A i, j \in 0 .. n - 1 : RatEq(RatSum(LAMBDA k : L(i, k) ** U(k, j), 0, n - 1), At(M, i, j))
=============================================================================
