----------------------------- MODULE SharedRead -----------------------------
(***************************************************************************)
(* Const use of shared objects by several clients at once.  A read locates *)
(* the segment of its coordinate, then combines control points of the      *)
(* object; a copy shares nothing with its source.  Whatever the            *)
(* interleaving, every client observes what it would observe alone: this   *)
(* is why the recorder may put the clients' observations one after another *)
(* and have them checked against the sequential Session.                   *)
(* FAULT: "" as specified; "memo" the located segment is kept in the       *)
(* object; "scratch" basis values are kept in one static buffer; "share"   *)
(* copies share control points with a count that is not atomic.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
FAULT == Env("FAULT", "")
NC == atoi(Env("CLIENTS", "2"))
N == atoi(Env("STEPS", "2"))
C == 1 .. NC
F == {1, 2}                 \* shared functions, of the same template
X == {0, 1}                 \* coordinates, one per segment
Val(f, x) == 10 * f + x     \* what a read must observe

VARIABLES pc, k, op, seg, sum, own, obs, memo, scratch, cnt, live
vars == <<pc, k, op, seg, sum, own, obs, memo, scratch, cnt, live>>

Init == /\ pc = [c \in C |-> "idle"] /\ k = [c \in C |-> 0]
        /\ op = [c \in C |-> <<>>] /\ seg = [c \in C |-> 0] /\ sum = [c \in C |-> 0]
        /\ own = [c \in C |-> 0]                \* the function the client's own copy is of, 0: none
        /\ obs = [c \in C |-> <<>>]
        /\ memo = [f \in F |-> 0] /\ scratch = 0
        /\ cnt = [f \in F |-> 1] /\ live = [f \in F |-> TRUE]

\* which object a client reads: a shared one or its copy of one
Start(c) == /\ pc[c] = "idle" /\ k[c] < N
            /\ k' = [k EXCEPT ![c] = @ + 1]
            /\ \/ \E f \in F, x \in X :
                     op' = [op EXCEPT ![c] = <<"read", f, x>>] /\ pc' = [pc EXCEPT ![c] = "locate"]
               \/ \E f \in F : own[c] = 0 /\ op' = [op EXCEPT ![c] = <<"copy", f, 0>>] /\ pc' = [pc EXCEPT ![c] = "copy"]
               \/ own[c] # 0 /\ op' = [op EXCEPT ![c] = <<"drop", own[c], 0>>] /\ pc' = [pc EXCEPT ![c] = "drop"]
            /\ UNCHANGED <<seg, sum, own, obs, memo, scratch, cnt, live>>
Locate(c) == /\ pc[c] = "locate"
             /\ IF FAULT = "memo" THEN memo' = [memo EXCEPT ![op[c][2]] = op[c][3]] /\ UNCHANGED seg
                ELSE seg' = [seg EXCEPT ![c] = op[c][3]] /\ UNCHANGED memo
             /\ pc' = [pc EXCEPT ![c] = "basis"] /\ UNCHANGED <<k, op, sum, own, obs, scratch, cnt, live>>
Basis(c) == /\ pc[c] = "basis"
            /\ LET s == IF FAULT = "memo" THEN memo[op[c][2]] ELSE seg[c]
               IN IF FAULT = "scratch" THEN scratch' = s /\ UNCHANGED sum
                  ELSE sum' = [sum EXCEPT ![c] = s] /\ UNCHANGED scratch
            /\ pc' = [pc EXCEPT ![c] = "combine"] /\ UNCHANGED <<k, op, seg, own, obs, memo, cnt, live>>
Combine(c) == /\ pc[c] = "combine"
              /\ LET s == IF FAULT = "scratch" THEN scratch ELSE sum[c]
                 IN obs' = [obs EXCEPT ![c] = Append(@, <<op[c], IF live[op[c][2]] THEN Val(op[c][2], s) ELSE -1>>)]
              /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<k, op, seg, sum, own, memo, scratch, cnt, live>>
\* a counted copy: the count is read, then written
Copy(c) == /\ pc[c] = "copy"
           /\ sum' = [sum EXCEPT ![c] = cnt[op[c][2]]]
           /\ own' = [own EXCEPT ![c] = op[c][2]]
           /\ pc' = [pc EXCEPT ![c] = IF FAULT = "share" THEN "copy2" ELSE "idle"]
           /\ UNCHANGED <<k, op, seg, obs, memo, scratch, cnt, live>>
Copy2(c) == /\ pc[c] = "copy2" /\ cnt' = [cnt EXCEPT ![op[c][2]] = sum[c] + 1]
            /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<k, op, seg, sum, own, obs, memo, scratch, live>>
Drop(c) == /\ pc[c] = "drop" /\ own' = [own EXCEPT ![c] = 0]
           /\ IF FAULT = "share"
              THEN /\ cnt' = [cnt EXCEPT ![op[c][2]] = @ - 1]
                   /\ live' = [live EXCEPT ![op[c][2]] = cnt[op[c][2]] > 1]
              ELSE UNCHANGED <<cnt, live>>
           /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<k, op, seg, sum, obs, memo, scratch>>
Done == (\A c \in C : pc[c] = "idle" /\ k[c] = N) /\ UNCHANGED vars
Next == Done \/ \E c \in C : Start(c) \/ Locate(c) \/ Basis(c) \/ Combine(c) \/ Copy(c) \/ Copy2(c) \/ Drop(c)
Spec == Init /\ [][Next]_vars

AsAlone == \A c \in C : \A i \in 1 .. Len(obs[c]) : obs[c][i][2] = Val(obs[c][i][1][2], obs[c][i][1][3])
Shared == \A f \in F : live[f]
=============================================================================
