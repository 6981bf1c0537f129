------------------------------- MODULE MeshMC -------------------------------
(* All shapes up to a bound: the position map is a bijection with inverse  *)
(* Idx, lines partition the mesh, neighbours in a line are AccSize apart.  *)
EXTENDS MeshArray, IOUtils
MaxD == IF "MAXD" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXD) ELSE 4
MaxN == IF "MAXN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXN) ELSE 3
VARIABLE dims
Init == dims = <<>> /\ MInit
Next == Len(dims) < MaxD /\ \E k \in 1 .. MaxN : dims' = Append(dims, k) /\ UNCHANGED ms
D == Len(dims)
Ix == [1 .. D -> 0 .. MaxN - 1]
Valid(i) == \A d \in 1 .. D : i[d] < dims[d]
IdxInv == \A q \in 0 .. Size(dims) - 1 : Valid(Idx(dims, q)) /\ Pos(dims, Idx(dims, q)) = q
PosInv == \A i \in Ix : Valid(i) => /\ Pos(dims, i) \in 0 .. Size(dims) - 1
                                    /\ Idx(dims, Pos(dims, i)) = i
BigInv == \A q \in 0 .. Size(dims) - 1 : LET i == Idx(dims, q) IN RatEq(BigPos(dims, i), q) /\ InRange(dims, i)
LineStep == \A d \in 1 .. D, q \in 0 .. Size(dims) - 1 :
    LET L == Line(dims, d, Idx(dims, q))
    IN /\ q \in {L[k] : k \in 1 .. Len(L)}
       /\ \A k \in 1 .. Len(L) - 1 : L[k + 1] - L[k] = AccSize(dims, d)
\* writing a line changes exactly that line (checked on the action)
LineWrite == \A d \in 1 .. D, q \in 0 .. Size(dims) - 1 :
    LET L == Line(dims, d, Idx(dims, q)) IN Cardinality({L[k] : k \in 1 .. Len(L)}) = dims[d]
=============================================================================
