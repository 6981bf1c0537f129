------------------------------ MODULE MeshArray ------------------------------
(***************************************************************************)
(* Meshes: D-dimensional row-major arrays with several access paths.       *)
(* ms : slot -> [dims : Seq(Nat), a : Seq(value)]                          *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC

VARIABLE ms

RECURSIVE SizeFrom(_, _)
SizeFrom(dims, d) == IF d > Len(dims) THEN 1 ELSE dims[d] * SizeFrom(dims, d + 1)
Size(dims) == SizeFrom(dims, 1)
\* distance in memory of neighbours along axis d (1-based)
AccSize(dims, d) == SizeFrom(dims, d + 1)

\* row-major position (0-based) of a multi-index (0-based components)
RECURSIVE PosFrom(_, _, _, _)
PosFrom(dims, i, d, acc) == IF d > Len(dims) THEN acc ELSE PosFrom(dims, i, d + 1, acc * dims[d] + i[d])
Pos(dims, i) == PosFrom(dims, i, 1, 0)
\* its inverse
Idx(dims, q) == [d \in 1 .. Len(dims) |-> (q \div AccSize(dims, d)) % dims[d]]

\* the same over unbounded integers (numerals): index arithmetic of meshes far
\* too large to be allocated
RECURSIVE BigSizeFrom(_, _)
BigSizeFrom(dims, d) == IF d > Len(dims) THEN "1" ELSE dims[d] ** BigSizeFrom(dims, d + 1)
RECURSIVE BigPosFrom(_, _, _, _)
BigPosFrom(dims, i, d, acc) == IF d > Len(dims) THEN acc ELSE BigPosFrom(dims, i, d + 1, (acc ** dims[d]) ++ i[d])
BigPos(dims, i) == BigPosFrom(dims, i, 1, "0")
InRange(dims, i) == \A d \in 1 .. Len(dims) : RatLeq("0", i[d]) /\ RatLt(i[d], dims[d])

Line(dims, d, i) == [k \in 1 .. dims[d] |-> Pos(dims, [i EXCEPT ![d] = k - 1])]

-----------------------------------------------------------------------------
MInit == ms = <<>>
PutM(i, v) == ms' = (i :> v) @@ ms
Has(i) == i \in DOMAIN ms

New(i, dims, vals) == Len(vals) = Size(dims) /\ PutM(i, [dims |-> dims, a |-> vals])
SetEl(i, idx, v) == Has(i) /\ PutM(i, [ms[i] EXCEPT !.a[Pos(ms[i].dims, idx) + 1] = v])
\* write a line along axis d, in order
SetLine(i, d, idx, vs) ==
    /\ Has(i)
    /\ LET L == Line(ms[i].dims, d, idx)
       IN PutM(i, [ms[i] EXCEPT !.a = [q \in 1 .. Len(ms[i].a) |->
              IF \E k \in 1 .. Len(L) : L[k] = q - 1
              THEN vs[CHOOSE k \in 1 .. Len(L) : L[k] = q - 1] ELSE ms[i].a[q]]])
CopyTo(i, j) == Has(j) /\ PutM(i, ms[j])
MoveTo(i, j) == /\ Has(j) /\ i # j
                /\ ms' = [k \in (DOMAIN ms \cup {i}) \ {j} |-> IF k = i THEN ms[j] ELSE ms[k]]
\* elements keep their places in memory order; tail: content of added elements
Resize(i, dims, tail) ==
    /\ Has(i)
    /\ LET old == ms[i].a
           n == Size(dims)
       IN /\ Len(tail) = (IF n > Len(old) THEN n - Len(old) ELSE 0)
          /\ PutM(i, [dims |-> dims, a |-> SubSeq(old \o tail, 1, n)])

-----------------------------------------------------------------------------
(* Observations *)
Elements(i) == ms[i].a
LineVals(i, d, idx) == [k \in 1 .. ms[i].dims[d] |-> ms[i].a[Line(ms[i].dims, d, idx)[k] + 1]]
=============================================================================
