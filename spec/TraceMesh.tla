------------------------------ MODULE TraceMesh ------------------------------
(* Is a recorded trace of the mesh types a behaviour of MeshArray?         *)
EXTENDS MeshArray, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Must(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, why>>) /\ FALSE
Obs == UNCHANGED ms
M == ms[E.m]

TReset == Is("Reset") /\ ms' = <<>>
TEnd == Is("End") /\ Obs
TNew == Is("New") /\ Must(E.size = Size(E.dims) /\ Len(E.vals) = Size(E.dims), "size") /\ New(E.m, E.dims, E.vals)
TSet == Is("Set") /\ SetEl(E.m, E.i, E.v)
TSetLine == Is("SetLine") /\ SetLine(E.m, E.d + 1, E.i, E.vals)
TCopy == Is("Copy") /\ CopyTo(E.m, E.s)
TMove == Is("Move") /\ MoveTo(E.m, E.s)
TResize == Is("Resize") /\ Must(E.size = Size(E.dims), "size after resize") /\ Resize(E.m, E.dims, E.tail)
\* all elements read along a path, in row-major order of the indices
TAll == Is("All") /\ Must(E.vals = Elements(E.m), "elements") /\ Obs
\* one line, read forwards
TLine == Is("Line") /\ Must(E.vals = LineVals(E.m, E.d + 1, E.i), "line") /\ Obs
\* positions visited by a line iterator (from iter_indices), distance and order relations
TWalk == /\ Is("Walk")
         /\ LET L == Line(M.dims, E.d + 1, E.i)
            IN /\ Must(Len(E.idx) = Len(L), "number of elements visited")
               /\ Must(\A k \in 1 .. Len(L) : E.idx[k] = Idx(M.dims, L[k]), "indices visited")
               /\ Must(E.dist = Len(L), "distance")
               /\ Must(E.rel, "order relations")
         /\ Obs
\* index arithmetic: position of each multi-index, and back
TMap == /\ Is("Map")
        /\ Must(E.pos = [q \in 1 .. Size(M.dims) |-> q - 1], "row-major positions")
        /\ Must(E.safe = E.pos /\ E.back2 = E.back, "ways to map positions agree")
        /\ Must(E.back = [q \in 1 .. Size(M.dims) |-> Idx(M.dims, q - 1)], "indices of positions")
        /\ Must(E.dims = M.dims /\ E.size = Size(M.dims), "dimensions")
        /\ Must(E.acc = [d \in 1 .. Len(M.dims) + 1 |-> SizeFrom(M.dims, Len(M.dims) - d + 2)], "accumulated sizes")
        /\ Obs
\* the arithmetic of a dimension object on its own, extents of any size
TDim == /\ Is("Dim")
        /\ LET D == Len(E.dims)
           IN /\ Must(RatEq(E.size, BigSizeFrom(E.dims, 1)) /\ E.got = E.dims /\ E.arr = E.dims, "number of elements")
              /\ Must(\A d \in 0 .. D : RatEq(E.acc[d + 1], BigSizeFrom(E.dims, D - d + 1)), "accumulated sizes")
              /\ Must(\A k \in 1 .. Len(E.at) :
                         /\ RatEq(E.at[k].pos, BigPos(E.dims, E.at[k].i))
                         /\ E.at[k].safe = E.at[k].pos /\ E.at[k].each = E.at[k].pos, "row-major positions")
              /\ Must(\A k \in 1 .. Len(E.at) : E.at[k].back = E.at[k].i, "indices of positions")
        /\ Obs
TraceInit == MInit /\ l = 1
TraceNext == TReset \/ TEnd \/ TNew \/ TSet \/ TSetLine \/ TCopy \/ TMove \/ TResize \/ TAll \/ TLine \/ TWalk \/ TMap \/ TDim
TraceView == l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"CONSUMED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
