------------------------------ MODULE TraceBand ------------------------------
(* Is a recorded trace of band matrices and solvers a behaviour of Band?   *)
EXTENDS Band, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Must(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, why>>) /\ FALSE
Obs == UNCHANGED bvars
\* single precision elements
Tol == IF E.fl THEN "1:-14" ELSE "1:-33"
TReset == Is("Reset") /\ mt' = <<>> /\ lu' = <<>>
TEnd == Is("End") /\ Obs
TMNew == Is("MNew") /\ Must(E.dn = E.n /\ E.dp = E.p /\ E.dq = E.q, "reported size and bandwidths") /\ MNew(E.m, E.n, E.p, E.q, E.x)
TMFill == Is("MFill") /\ MFill(E.m, E.vals)
TMSet == Is("MSet") /\ MSet(E.m, E.i, E.j, E.v)
TMDump == Is("MDump") /\ Must(DumpOk(mt[E.m], E.vals), "elements") /\ Obs
TMMul == Is("MMul") /\ Must(MulOk(mt[E.m], E.x, E.y, Tol), "product") /\ Obs
TMCopy == Is("MCopy") /\ MCopy(E.m, E.s)
TMMove == Is("MMove") /\ MMove(E.m, E.s)
TLU == Is("LU") /\ LUNew(E.l, E.m, E.how \in {"ctor_r", "comp_r"})
TLUCopy == Is("LUCopy") /\ LUCopy(E.l, E.s)
TLUMove == Is("LUMove") /\ LUMove(E.l, E.s)
TSolve == Is("Solve") /\ Must(SolveOk(lu[E.l], E.b, E.x, Tol, E.growth), <<"solution", E.form>>)
          /\ Must(E.same, "right hand side modified") /\ Obs
TraceInit == BInit /\ l = 1
TraceNext == TReset \/ TEnd \/ TMNew \/ TMFill \/ TMSet \/ TMDump \/ TMMul \/ TMCopy \/ TMMove \/ TLU \/ TLUCopy \/ TLUMove \/ TSolve
TraceView == l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"CONSUMED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
