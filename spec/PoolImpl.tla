------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* DedicatedThreadPool at the grain of its locks: a main queue guarded by  *)
(* a mutex with a condition variable, one queue per worker, batches moved  *)
(* from the main queue to the worker's, stealing, sleeping, shutdown.      *)
(* It refines TaskPool.  FAULT names a deviation that must break it (""    *)
(* for the design of the code).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
FAULT == Env("FAULT", "")
NW == atoi(Env("NW", "2"))           \* workers
BATCH == atoi(Env("BATCH", "2"))
SPUR == atoi(Env("SPUR", "1"))       \* spurious wake-ups allowed
\* PLAN: each client's tasks; the tasks a task submits
PLAN == atoi(Env("PLAN", "1"))
Plan == CASE PLAN = 1 -> [c |-> <<<<1, 2>>, <<3>>>>, n |-> [t \in 1 .. 3 |-> 0]]
          [] PLAN = 2 -> [c |-> <<<<1, 2, 3>>>>, n |-> [t \in 1 .. 4 |-> IF t = 1 THEN 4 ELSE 0]]
          [] PLAN = 3 -> [c |-> <<<<1>>, <<2>>>>, n |-> [t \in 1 .. 3 |-> IF t = 2 THEN 3 ELSE 0]]
          [] PLAN = 4 -> [c |-> <<<<1>>>>, n |-> [t \in 1 .. 1 |-> 0]]
          [] OTHER -> [c |-> <<<<1, 2, 3, 4>>>>, n |-> [t \in 1 .. 4 |-> 0]]
Tasks == DOMAIN Plan.n
Outcomes == {"val"}
W == 1 .. NW
C == {NW + i : i \in 1 .. Len(Plan.c)}
Main == 0
Thr == {Main} \cup W \cup C
ListOf(x) == Plan.c[x - NW]

VARIABLES pc, arg,      \* control point of each thread; its task, position or count
          cur,          \* the task each worker holds
          mq, wq,       \* queues
          mtx,          \* holder of the mutex (-1: free)
          cvw,          \* threads waiting on the condition variable
          flag,         \* should_terminate
          spur,
          st, out, runs, pool    \* what users see
ivars == <<pc, arg, cur, mq, wq, mtx, cvw, flag, spur>>
avars == <<st, out, runs, pool>>
vars == <<pc, arg, cur, mq, wq, mtx, cvw, flag, spur, st, out, runs, pool>>
A == INSTANCE TaskPool

Init == /\ pc = [x \in Thr |-> IF x \in W THEN "loop" ELSE IF x \in C THEN "sub" ELSE "idle"]
        /\ arg = [x \in Thr |-> 1]
        /\ cur = [x \in Thr |-> 0]
        /\ mq = <<>> /\ wq = [w \in W |-> <<>>]
        /\ mtx = -1 /\ cvw = {} /\ flag = FALSE /\ spur = 0
        /\ A!Init

Go(x, p) == pc' = [pc EXCEPT ![x] = p]
Keep(s) == UNCHANGED s

(*--- submission, by a client or by a running task (cur holds the task submitted) ---*)
Submitting(x) == IF x \in C THEN ListOf(x)[arg[x]] ELSE Plan.n[cur[x]]
SubCall(x) == /\ x \in C /\ pc[x] = "sub"
              /\ IF arg[x] > Len(ListOf(x)) THEN Go(x, "end") /\ Keep(avars)
                 ELSE A!SubBegin(Submitting(x)) /\ Go(x, "lock")
              /\ UNCHANGED <<arg, cur, mq, wq, mtx, cvw, flag, spur>>
Lock(x) == /\ pc[x] = "lock" /\ mtx = -1 /\ mtx' = x /\ Go(x, "push")
           /\ UNCHANGED <<arg, cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
Push(x) == /\ pc[x] = "push" /\ mq' = Append(mq, Submitting(x)) /\ mtx' = -1 /\ Go(x, "notify")
           /\ UNCHANGED <<arg, cur, wq, cvw, flag, spur>> /\ Keep(avars)
After(x) == IF x \in C THEN Go(x, "sub") /\ arg' = [arg EXCEPT ![x] = @ + 1] ELSE Go(x, "finish") /\ Keep(arg)
Notify(x) == /\ pc[x] = "notify"
             /\ IF cvw = {} \/ FAULT = "nonotify" \/ (FAULT = "notifyempty" /\ Len(mq) # 1) THEN Keep(cvw)
                ELSE \E w \in cvw : cvw' = cvw \ {w}
             /\ A!SubEnd(Submitting(x)) /\ After(x)
             /\ UNCHANGED <<cur, mq, wq, mtx, flag, spur>>

(*------------------------------ a worker ---------------------------------*)
Loop(w) == /\ pc[w] = "loop" /\ Go(w, IF flag THEN "exit" ELSE "pop")
           /\ UNCHANGED <<arg, cur, mq, wq, mtx, cvw, flag, spur>> /\ Keep(avars)
TakeBack(w) == cur' = [cur EXCEPT ![w] = wq[w][Len(wq[w])]] /\ wq' = [wq EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
Pop(w) == /\ pc[w] = "pop"
          /\ IF wq[w] # <<>> THEN TakeBack(w) /\ Go(w, "run") ELSE Go(w, "qlock") /\ UNCHANGED <<cur, wq>>
          /\ UNCHANGED <<arg, mq, mtx, cvw, flag, spur>> /\ Keep(avars)
QLock(w) == /\ pc[w] = "qlock" /\ mtx = -1
            /\ IF mq = <<>> THEN Go(w, "steal") /\ Keep(mtx) ELSE Go(w, "batch") /\ mtx' = w
            /\ arg' = [arg EXCEPT ![w] = 1]
            /\ UNCHANGED <<cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
Batch(w) == /\ pc[w] = "batch"
            /\ IF arg[w] <= BATCH /\ mq # <<>>
               THEN /\ mq' = Tail(mq)
                    /\ wq' = [wq EXCEPT ![w] = IF FAULT = "lose" /\ Len(@) = BATCH - 1 THEN @ ELSE Append(@, Head(mq))]
                    /\ arg' = [arg EXCEPT ![w] = @ + 1] /\ UNCHANGED <<pc, mtx>>
               ELSE mtx' = -1 /\ Go(w, "pop2") /\ UNCHANGED <<mq, wq, arg>>
            /\ UNCHANGED <<cur, cvw, flag, spur>> /\ Keep(avars)
Pop2(w) == /\ pc[w] = "pop2"
           /\ IF wq[w] # <<>> THEN TakeBack(w) /\ Go(w, "run") /\ Keep(arg)
              ELSE Go(w, "steal") /\ arg' = [arg EXCEPT ![w] = 1] /\ UNCHANGED <<cur, wq>>
           /\ UNCHANGED <<mq, mtx, cvw, flag, spur>> /\ Keep(avars)
Steal(w) == /\ pc[w] = "steal"
            /\ IF arg[w] >= NW THEN Go(w, "wlock") /\ UNCHANGED <<arg, cur, wq>>
               ELSE LET v == ((w - 1 + arg[w]) % NW) + 1
                    IN IF wq[v] = <<>> THEN arg' = [arg EXCEPT ![w] = @ + 1] /\ UNCHANGED <<pc, cur, wq>>
                       ELSE /\ cur' = [cur EXCEPT ![w] = wq[v][1]]
                            /\ wq' = IF FAULT = "copysteal" THEN wq ELSE [wq EXCEPT ![v] = Tail(@)]
                            /\ Go(w, "run") /\ Keep(arg)
            /\ UNCHANGED <<mq, mtx, cvw, flag, spur>> /\ Keep(avars)
WLock(w) == /\ pc[w] = "wlock" /\ mtx = -1 /\ mtx' = w /\ Go(w, IF FAULT = "nopred" THEN "sleep" ELSE "check")
            /\ UNCHANGED <<arg, cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
\* the predicate is evaluated, and then the thread sleeps, in two steps: only the mutex is in between
Check(w) == /\ pc[w] = "check"
            /\ IF mq # <<>> \/ flag THEN Go(w, "loop") /\ mtx' = -1 ELSE Go(w, "sleep") /\ Keep(mtx)
            /\ UNCHANGED <<arg, cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
Sleep(w) == /\ pc[w] = "sleep" /\ mtx' = -1 /\ cvw' = cvw \cup {w} /\ Go(w, "wait")
            /\ UNCHANGED <<arg, cur, mq, wq, flag, spur>> /\ Keep(avars)
Wake(w) == /\ pc[w] = "wait" /\ w \notin cvw /\ mtx = -1 /\ mtx' = w
           /\ Go(w, IF FAULT = "nopred" THEN "woken" ELSE "check")
           /\ UNCHANGED <<arg, cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
Woken(w) == /\ pc[w] = "woken" /\ mtx' = -1 /\ Go(w, "loop")
            /\ UNCHANGED <<arg, cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
Spurious(w) == /\ pc[w] = "wait" /\ w \in cvw /\ spur < SPUR /\ spur' = spur + 1 /\ cvw' = cvw \ {w}
               /\ UNCHANGED <<pc, arg, cur, mq, wq, mtx, flag>> /\ Keep(avars)
Run(w) == /\ pc[w] = "run" /\ A!Start(cur[w]) /\ Go(w, IF Plan.n[cur[w]] # 0 THEN "nest" ELSE "finish")
          /\ UNCHANGED <<arg, cur, mq, wq, mtx, cvw, flag, spur>>
Nest(w) == /\ pc[w] = "nest" /\ A!SubBegin(Plan.n[cur[w]]) /\ Go(w, "lock")
           /\ UNCHANGED <<arg, cur, mq, wq, mtx, cvw, flag, spur>>
Finish(w) == /\ w \in W /\ pc[w] = "finish" /\ A!End(cur[w], "val") /\ Go(w, "loop") /\ cur' = [cur EXCEPT ![w] = 0]
             /\ UNCHANGED <<arg, mq, wq, mtx, cvw, flag, spur>>

(*----------------- the main thread destroys the pool ---------------------*)
MClose == /\ pc[Main] = "idle" /\ \A c \in C : pc[c] = "end"
          /\ A!Close /\ Go(Main, IF FAULT = "nolock" THEN "tset" ELSE "tlock")
          /\ UNCHANGED <<arg, cur, mq, wq, mtx, cvw, flag, spur>>
MLock == /\ pc[Main] = "tlock" /\ mtx = -1 /\ mtx' = Main /\ Go(Main, "tset")
         /\ UNCHANGED <<arg, cur, mq, wq, cvw, flag, spur>> /\ Keep(avars)
MSet == /\ pc[Main] = "tset" /\ flag' = TRUE /\ mtx' = (IF mtx = Main THEN -1 ELSE mtx) /\ Go(Main, "tall")
        /\ UNCHANGED <<arg, cur, mq, wq, cvw, spur>> /\ Keep(avars)
MAll == /\ pc[Main] = "tall"
        /\ cvw' = IF FAULT = "notifyone" /\ cvw # {} THEN cvw \ {CHOOSE w \in cvw : TRUE} ELSE {}
        /\ Go(Main, "join")
        /\ UNCHANGED <<arg, cur, mq, wq, mtx, flag, spur>> /\ Keep(avars)
MJoin == /\ pc[Main] = "join" /\ (FAULT = "nojoin" \/ \A w \in W : pc[w] = "exit")
         /\ A!Down /\ mq' = <<>> /\ wq' = [w \in W |-> <<>>] /\ Go(Main, "gone")
         /\ UNCHANGED <<arg, cur, mtx, cvw, flag, spur>>
\* futures are read at any time by anybody
Read == \E t \in Tasks : \E r \in {"val", "broken"} : A!Get(t, r) /\ pool = "down" /\ Keep(ivars)

WStep(w) == \/ Loop(w) \/ Pop(w) \/ QLock(w) \/ Batch(w) \/ Pop2(w) \/ Steal(w) \/ WLock(w) \/ Check(w) \/ Sleep(w)
            \/ Wake(w) \/ Woken(w) \/ Run(w) \/ Nest(w) \/ Finish(w) \/ Lock(w) \/ Push(w) \/ Notify(w)
CStep(c) == SubCall(c) \/ Lock(c) \/ Push(c) \/ Notify(c)
MStep == MLock \/ MSet \/ MAll \/ MJoin
Next == (\E w \in W : WStep(w) \/ Spurious(w)) \/ (\E c \in C : CStep(c)) \/ MClose \/ MStep \/ Read
Step == (\E w \in W : WStep(w)) \/ (\E c \in C : CStep(c)) \/ MStep
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Liveness without assuming anything about the fairness of locks: no      *)
(* behaviour goes on for ever (Finite), and where it cannot go on,         *)
(* everything has been done (Complete): tasks while the pool lives, the    *)
(* shutdown once it was begun.                                             *)
(***************************************************************************)
Finite == <>[][FALSE]_vars
Complete == ~ENABLED Step => /\ pool # "closing"
                             /\ pool = "up" => /\ \A c \in C : pc[c] = "end"
                                              /\ \A t \in Tasks : st[t] \in {"new", "done"}

Refines == A!Init /\ [][A!Next]_avars
AtMostOnce == A!AtMostOnce
BrokenNeverRan == A!BrokenNeverRan
QuietWhenDown == A!QuietWhenDown
MutexHeld == mtx \in Thr \cup {-1}
\* (a started task's step is refused by TaskPool, so an implementation that would start it twice gets stuck here)
NoStuck == \A w \in W : pc[w] = "run" => st[cur[w]] \in {"offered", "queued"} /\ pool # "down"
=============================================================================
