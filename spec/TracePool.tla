------------------------------ MODULE TracePool ------------------------------
(***************************************************************************)
(* Are recorded executions of the real pool behaviours of TaskPool?        *)
(* PROP = "C10": tasks run once and their futures deliver their outcomes.  *)
(* PROP = "C11": tasks are executed and the pool shuts down.               *)
(* PROP = "": both.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""
Tasks == 0 .. atoi(IOEnv.MAXTASK)
Outcomes == {}
VARIABLES st, out, runs, pool, l
P == INSTANCE TaskPool
pv == <<st, out, runs, pool>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Must(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, why, E>>) /\ FALSE
Once == PROP # "C11"      \* outcomes matter
Live == PROP # "C10"      \* termination matters

TReset == /\ Is("Reset") /\ Must(l = 1 \/ pool \in {"down", "none"}, "no end")
          /\ st' = [t \in Tasks |-> "new"] /\ out' = [t \in Tasks |-> "none"] /\ runs' = [t \in Tasks |-> 0] /\ pool' = "none"
TUp == Is("Up") /\ pool = "none" /\ pool' = "up" /\ UNCHANGED <<st, out, runs>>
TSubBegin == Is("SubBegin") /\ P!SubBegin(E.t)
TSubEnd == Is("SubEnd") /\ P!SubEnd(E.t)
TStart == /\ Is("Start")
          /\ IF Once THEN Must(st[E.t] \in P!Unstarted, "started again or never submitted") /\ Must(pool # "down", "started after destruction") /\ P!Start(E.t)
             ELSE Must(pool # "down", "started after destruction") /\ st' = [st EXCEPT ![E.t] = "running"] /\ UNCHANGED <<out, runs, pool>>
TEnd == /\ Is("Ended") /\ Must(pool # "down", "still running after destruction") /\ P!End(E.t, E.r)
TGet == /\ Is("Get")
        /\ IF Once THEN Must(P!Delivers(E.t, E.r), <<"wrong outcome", st[E.t], out[E.t]>>) /\ P!Get(E.t, E.r)
           ELSE Must(E.r # "pending", "future never ready") /\ UNCHANGED pv
TQuiet == Is("Quiet") /\ UNCHANGED pv
TClose == Is("Close") /\ P!Close
TDown == /\ Is("Down") /\ Must(\A t \in Tasks : st[t] # "running", "destroyed while a task is running")
         /\ Must(E.alive = 0 \/ ~Live, "workers not joined") /\ P!Down
\* nothing can happen any more, though something should
TStuck == /\ Is("Stuck")
          /\ Must(~Live, <<"stuck", pool, {t \in Tasks : st[t] \in P!Unstarted}>>)
          /\ Must(pool # "up" \/ \A t \in Tasks : st[t] \notin {"queued", "offered"}, "stranded task")
          /\ pool' = "none" /\ UNCHANGED <<st, out, runs>>
TFin == Is("Fin") /\ Must(pool \in {"down", "none"}, "no end") /\ UNCHANGED pv
TDied == Is("Died") /\ Must(FALSE, "process died")

TraceInit == l = 1 /\ pool = "none" /\ st = [t \in Tasks |-> "new"] /\ out = [t \in Tasks |-> "none"] /\ runs = [t \in Tasks |-> 0]
TraceNext == TReset \/ TUp \/ TSubBegin \/ TSubEnd \/ TStart \/ TEnd \/ TGet \/ TQuiet \/ TClose \/ TDown \/ TStuck \/ TFin \/ TDied
TraceView == l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"CONSUMED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
