------------------------------ MODULE TaskPool ------------------------------
(***************************************************************************)
(* The thread pool as its users see it.  A task is offered, accepted,      *)
(* started and finished at most once; its future delivers its outcome.     *)
(* Once the pool is being destroyed, tasks that have not been started may  *)
(* be dropped, and then their futures report a broken promise.             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANT Tasks,      \* identifiers of tasks
         Outcomes    \* what a task can end with (values and exceptions)
VARIABLES st,        \* state of each task
          out,       \* its outcome
          runs,      \* how often it was started
          pool       \* "up", "closing", "down"
pvars == <<st, out, runs, pool>>
Unstarted == {"offered", "queued"}
Init == /\ st = [t \in Tasks |-> "new"]
        /\ out = [t \in Tasks |-> "none"]
        /\ runs = [t \in Tasks |-> 0]
        /\ pool = "up"

\* A call to queue_task begins.  Only tasks may still do so while the pool is closing.
SubBegin(t) == /\ st[t] = "new" /\ pool # "down"
               /\ st' = [st EXCEPT ![t] = "offered"] /\ UNCHANGED <<out, runs, pool>>
\* ... and returns; the task may have been started by then
SubEnd(t) == /\ st[t] # "new"
             /\ st' = [st EXCEPT ![t] = IF @ = "offered" THEN "queued" ELSE @] /\ UNCHANGED <<out, runs, pool>>
Start(t) == /\ st[t] \in Unstarted /\ pool # "down"
            /\ st' = [st EXCEPT ![t] = "running"] /\ runs' = [runs EXCEPT ![t] = @ + 1] /\ UNCHANGED <<out, pool>>
End(t, o) == /\ st[t] = "running" /\ pool # "down"
             /\ st' = [st EXCEPT ![t] = "done"] /\ out' = [out EXCEPT ![t] = o] /\ UNCHANGED <<runs, pool>>
\* what the future of t says
Delivers(t, r) == \/ st[t] = "done" /\ r = out[t]
                  \/ st[t] \in Unstarted \cup {"dropped"} /\ pool # "up" /\ r = "broken"
Get(t, r) == /\ Delivers(t, r)
             /\ st' = [st EXCEPT ![t] = IF r = "broken" THEN "dropped" ELSE @] /\ UNCHANGED <<out, runs, pool>>
Close == pool = "up" /\ pool' = "closing" /\ UNCHANGED <<st, out, runs>>
Down == /\ pool = "closing" /\ \A t \in Tasks : st[t] # "running"
        /\ pool' = "down"
        /\ st' = [t \in Tasks |-> IF st[t] \in Unstarted THEN "dropped" ELSE st[t]]
        /\ UNCHANGED <<out, runs>>

Next == \/ \E t \in Tasks : SubBegin(t) \/ SubEnd(t) \/ Start(t) \/ (\E o \in Outcomes : End(t, o))
                            \/ \E r \in Outcomes \cup {"broken"} : Get(t, r)
        \/ Close \/ Down
Spec == Init /\ [][Next]_pvars
             /\ \A t \in Tasks : WF_pvars(Start(t)) /\ WF_pvars(\E o \in Outcomes : End(t, o))
             /\ WF_pvars(Down)

(*------------------------------ what follows ------------------------------*)
TypeOK == /\ st \in [Tasks -> {"new", "offered", "queued", "running", "done", "dropped"}]
          /\ out \in [Tasks -> Outcomes \cup {"none"}]
          /\ pool \in {"up", "closing", "down"}
AtMostOnce == \A t \in Tasks : runs[t] <= 1
DoneRan == \A t \in Tasks : st[t] = "done" => runs[t] = 1 /\ out[t] \in Outcomes
BrokenNeverRan == \A t \in Tasks : st[t] = "dropped" => runs[t] = 0 /\ pool # "up"
QuietWhenDown == pool = "down" => \A t \in Tasks : st[t] \in {"new", "done", "dropped"}
\* a future never changes its mind
Final == [][\A t \in Tasks : st[t] \in {"done", "dropped"} => st'[t] = st[t] /\ out'[t] = out[t]]_pvars
Progress == \A t \in Tasks : st[t] = "queued" ~> (st[t] = "done" \/ pool # "up")
Shutdown == pool = "closing" ~> pool = "down"
=============================================================================
