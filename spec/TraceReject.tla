----------------------------- MODULE TraceReject -----------------------------
(* Are recorded attempts answered as Reject says? *)
EXTENDS Reject, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Must(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, why>>) /\ FALSE
TMark == Is("Reset") \/ Is("End")
TX == Is("X") /\ Must(E.r = AxesOutcome(E.ax), <<"interpolation", E.how, E.r>>)
TB == Is("B") /\ Must((IF "exc" \in DOMAIN E THEN E.exc ELSE "ok") = KnotsOutcome(E.o, E.ax), <<"knots", E.how>>)
TMesh == Is("MeshTry") /\ \A k \in 1 .. Len(E.q) : Must(E.q[k].r = MeshOutcome(E.dims, E.q[k].i), <<"mesh", E.q[k]>>)
TBand == Is("BandTry") /\ \A k \in 1 .. Len(E.t) : Must(E.t[k].r = BandOutcome(E.n, E.p, E.q, E.x, E.t[k].path, E.t[k].i, E.t[k].j), <<"band", E.t[k]>>)
TraceInit == l = 1
TraceNext == TMark \/ TX \/ TB \/ TMesh \/ TBand
TraceView == l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"CONSUMED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
