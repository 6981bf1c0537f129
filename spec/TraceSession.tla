---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Is a recorded trace of the real library a behaviour of Session?         *)
(* One line of the trace per call; TRACE names the file.                   *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<tm, fn, px, l>>
E == Trace[l]

\* Rounding allowance relative to the sum of magnitudes of the terms.  Measured
\* errors are below 1:-36 (mostly 1:-42) and 1:-14; TOLD, TOLF override for calibration.
Tol(prec) == IF prec = "f" THEN (IF "TOLF" \in DOMAIN IOEnv THEN IOEnv.TOLF ELSE "1:-11")
             ELSE (IF "TOLD" \in DOMAIN IOEnv THEN IOEnv.TOLD ELSE "1:-31")

AxOf(a) == IF a.u THEN UniAxis(a.o, a.p, a.n, a.lo, a.hi) ELSE NonAxis(a.o, a.p, a.x)

MaxAbs(s) == LET RECURSIVE Mx(_, _)
                 Mx(i, acc) == IF i > Len(s) THEN acc ELSE Mx(i + 1, RatMax(acc, RatAbs(s[i])))
             IN Mx(1, "0")
RECURSIVE MaxAll(_, _)
MaxAll(ss, i) == IF i > Len(ss) THEN "0" ELSE RatMax(MaxAbs(ss[i]), MaxAll(ss, i + 1))

\* The driver claims control points c for the data it passed in; check that.
\* A wrong claim is an error of the harness, not of the library.
Witness(T, c, data) ==
    IF c = <<>> THEN <<>>
    ELSE LET ok == \A k \in 1 .. Len(c) :
                     LET ex == DataOf(T.ax, c[k])
                         e == (T.tol // 1024) ** (1 ++ MaxAbs(c[k]))
                     IN /\ Len(c[k]) = DataSize(T.ax) /\ Len(data[k]) = DataSize(T.ax)
                        /\ \A q \in 1 .. Len(data[k]) : RatNear(ex[q], data[k][q], e)
         IN IF ok THEN c ELSE Assert(FALSE, <<"HARNESS: data do not fit control points", l>>)

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
NoExc == "exc" \notin DOMAIN E
\* (a conditional, since TLC would explore both sides of a disjunction)
Must(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, why>>) /\ FALSE

TReset == Is("Reset") /\ tm' = <<>> /\ fn' = <<>> /\ px' = <<>>
TEnd == Is("End") /\ Observe
TT == Is("T") /\ Must(NoExc, "exception") /\
      TNew(E.t, TLCEval([d \in 1 .. Len(E.ax) |-> AxOf(E.ax[d])]), Tol(E.prec))
TTCopy == Is("TCopy") /\ TCopy(E.t, E.s)
TTMove == Is("TMove") /\ TMove(E.t, E.s)
TTAssign == Is("TAssign") /\ TAssign(E.t, E.s)
TTMoveAssign == Is("TMoveAssign") /\ TMoveAssign(E.t, E.s)
TTDel == Is("TDel") /\ TDel(E.t)
Fired == "fired" \in DOMAIN E /\ E.fired
TF == /\ Is("F") /\ ~Fired
      /\ Must(NoExc, "exception")
      /\ Must(E.same, "input data modified")
      /\ LET comp == Witness(tm[E.t], E.c, E.data)
             cmax == IF comp = <<>> THEN MaxAll(E.data, 1) ELSE MaxAll(comp, 1)
         IN Fill(E.f, E.t, E.how, comp, E.data, cmax)
\* an operation of the value type threw: the caller must have been told
TFFails == /\ Is("F") /\ Fired
           /\ Must(~NoExc, "exception of a value lost") /\ Must(E.exc = "fault", "another exception")
           /\ Must(E.same, "input data modified")
           /\ FillFails(E.f, E.t, E.how)
\* memory ran out: the attempt is reported, releases what it took and changes no other object
TFail == /\ Is("Fail")
         /\ Must(E.hit, "no memory, without a cause")
         /\ Must(E.same, "input data modified")
         /\ IF E.op = "TAssign" THEN AssignTFails(E.a)
            ELSE IF E.op = "FAssign" \/ (E.op = "F" /\ E.how = "into") THEN AssignFFails(E.a)
            ELSE MakeFails
TLive == Is("Live") /\ Must(~E.lost, "memory not released") /\ Observe
TFDefault == Is("FDefault") /\ FDefault(E.f)
TFCopy == Is("FCopy") /\ FCopy(E.f, E.g)
TFMove == Is("FMove") /\ FMove(E.f, E.g)
TFAssign == Is("FAssign") /\ FAssign(E.f, E.g)
TFMoveAssign == Is("FMoveAssign") /\ FMoveAssign(E.f, E.g)
TFDel == Is("FDel") /\ FDel(E.f)
TQ == /\ Is("Q")
      /\ \A j \in 1 .. Len(E.q) : Must(QueryOk(E.f, E.q[j]), <<"query", j, E.q[j]>>)
      /\ Observe
TInfo == Is("Info") /\ Must(InfoOk(E.f, E.ax, E.o), "info") /\ Observe
TP == Is("P") /\ PNew(E.p, E.t, E.x)
TPQ == Is("PQ") /\ Must(ProxyOk(E.p, E.f, E.r), "proxy") /\ Observe

TB == /\ Is("B")
      /\ Must(NoExc, "exception")
      /\ LET axes == TLCEval([d \in 1 .. Len(E.ax) |-> BAxis(E.o, E.ax[d].p, E.ax[d].m, E.ax[d].t)])
         IN /\ IF \A d \in 1 .. Len(axes) : BAxisOk(axes[d]) THEN TRUE ELSE Assert(FALSE, <<"HARNESS: knots", l>>)
            /\ BNew(E.f, E.how, axes, E.c, MaxAll(E.c, 1), Tol(E.prec))
TBInfo == Is("BInfo") /\ Must(BInfoOk(E.f, E.ax, E.o, "c" \in DOMAIN E, IF "c" \in DOMAIN E THEN E.c ELSE <<>>), "knots, range, control points") /\ Observe

TraceInit == SInit /\ l = 1
TraceNext == \/ TFail \/ TLive \/ TFFails \/ TReset \/ TEnd \/ TT \/ TTCopy \/ TTMove \/ TTAssign \/ TTMoveAssign \/ TTDel
             \/ TF \/ TFDefault \/ TFCopy \/ TFMove \/ TFAssign \/ TFMoveAssign \/ TFDel
             \/ TQ \/ TInfo \/ TP \/ TPQ \/ TB \/ TBInfo
TraceView == l
TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN /\ PrintT(<<"CONSUMED", d, Len(Trace)>>)
       /\ d = Len(Trace)
=============================================================================
