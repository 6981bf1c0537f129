------------------------------ MODULE ParBuild ------------------------------
(***************************************************************************)
(* Parallel construction: several callers each go through passes over an   *)
(* index range; a pass is cut into blocks given to the pool, the caller    *)
(* does the rest itself and then waits for all blocks.  A block, or the    *)
(* caller's part, may fail.  Each pass reads what the previous one wrote;  *)
(* when the caller returns its data is gone.                               *)
(* FAULT: "" the design of the code; "nowait" an exception leaves without  *)
(* waiting for the other blocks; "norest" the remainder is forgotten;      *)
(* "early" the next pass does not wait.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
FAULT == Env("FAULT", "")
H == atoi(Env("H", "3"))           \* size of the index range of each pass
PASSES == atoi(Env("PASSES", "2"))
NC == atoi(Env("CALLERS", "2"))
C == 1 .. NC
NW == atoi(Env("NW", "2"))
W == 1 .. NW

Sqrt(h) == CHOOSE r \in 0 .. h : r * r <= h /\ h < (r + 1) * (r + 1)
Blocks(h) == Sqrt(h)
Size(h) == IF Blocks(h) = 0 THEN h ELSE h \div Blocks(h)
Block(h, i) == {j \in 0 .. h - 1 : (i - 1) * Size(h) <= j /\ j < i * Size(h)}
Rest(h) == IF FAULT = "norest" THEN {} ELSE {j \in 0 .. h - 1 : j >= Blocks(h) * Size(h)}
\* every index is in exactly one part, for every size
ASSUME FAULT # "" \/ \A h \in 0 .. 60 : LET b == Blocks(h)
                                           z == Size(h)
                                       IN \A j \in 0 .. h - 1 :
          Cardinality({i \in 1 .. b : (i - 1) * z <= j /\ j < i * z}) + (IF j >= b * z THEN 1 ELSE 0) = 1

BlockH == [i \in 1 .. Blocks(H) |-> Block(H, i)]
VARIABLES pass,     \* caller -> pass it is in
          ph,       \* caller -> "sub", "rest", "wait", "unwind", "ok", "exc"
          k,        \* caller -> blocks submitted, or waited for
          q,        \* queue of <<caller, pass, block>>
          run,      \* worker -> what it runs, or none
          did,      \* caller -> pass -> indices written
          res       \* <<caller, pass, block>> -> "ok" / "exc"
vars == <<pass, ph, k, q, run, did, res>>
None == <<0, 0, 0>>
Init == /\ pass = [c \in C |-> 1] /\ ph = [c \in C |-> "sub"] /\ k = [c \in C |-> 0]
        /\ q = {} /\ run = [w \in W |-> None]
        /\ did = [c \in C |-> [p \in 1 .. PASSES |-> {}]] /\ res = <<>>
Gone(c) == ph[c] \in {"ok", "exc"}
Submit(c) == /\ ph[c] = "sub" /\ k[c] < Blocks(H)
             /\ q' = q \cup {<<c, pass[c], k[c] + 1>>} /\ k' = [k EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<pass, ph, run, did, res>>
Rests(c) == /\ ph[c] = "sub" /\ k[c] = Blocks(H)
            /\ k' = [k EXCEPT ![c] = 0]
            /\ \/ /\ did' = [did EXCEPT ![c][pass[c]] = @ \cup Rest(H)] /\ ph' = [ph EXCEPT ![c] = "wait"]
               \/ /\ Rest(H) # {} /\ UNCHANGED did   \* its own part throws
                  /\ ph' = [ph EXCEPT ![c] = IF FAULT = "nowait" THEN "exc" ELSE "unwind"]
            /\ UNCHANGED <<pass, q, run, res>>
Key(c, i) == <<c, pass[c], i>>
Wait(c) == /\ ph[c] = "wait" /\ k[c] < Blocks(H)
           /\ FAULT = "early" \/ Key(c, k[c] + 1) \in DOMAIN res
           /\ k' = [k EXCEPT ![c] = @ + 1]
           /\ ph' = [ph EXCEPT ![c] = IF FAULT # "early" /\ res[Key(c, k[c] + 1)] = "exc"
                                      THEN (IF FAULT = "nowait" THEN "exc" ELSE "unwind") ELSE @]
           /\ UNCHANGED <<pass, q, run, did, res>>
Unwind(c) == /\ ph[c] = "unwind" /\ \A i \in 1 .. Blocks(H) : Key(c, i) \in DOMAIN res
             /\ ph' = [ph EXCEPT ![c] = "exc"] /\ UNCHANGED <<pass, k, q, run, did, res>>
Advance(c) == /\ ph[c] = "wait" /\ k[c] = Blocks(H) /\ k' = [k EXCEPT ![c] = 0]
              /\ IF pass[c] = PASSES THEN ph' = [ph EXCEPT ![c] = "ok"] /\ UNCHANGED pass
                 ELSE ph' = [ph EXCEPT ![c] = "sub"] /\ pass' = [pass EXCEPT ![c] = @ + 1]
              /\ UNCHANGED <<q, run, did, res>>
Take(w) == /\ run[w] = None /\ \E x \in q : run' = [run EXCEPT ![w] = x] /\ q' = q \ {x}
           /\ UNCHANGED <<pass, ph, k, did, res>>
Finish(w) == /\ run[w] # None
             /\ LET x == run[w]
                IN \/ did' = [did EXCEPT ![x[1]][x[2]] = @ \cup BlockH[x[3]]] /\ res' = res @@ (x :> "ok")
                   \/ UNCHANGED did /\ res' = res @@ (x :> "exc")
             /\ run' = [run EXCEPT ![w] = None] /\ UNCHANGED <<pass, ph, k, q>>
Next == (\E c \in C : Submit(c) \/ Rests(c) \/ Wait(c) \/ Unwind(c) \/ Advance(c)) \/ \E w \in W : Take(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars
\* nothing uses the data of a caller that has returned
NoDangling == \A c \in C : Gone(c) => (\A x \in q : x[1] # c) /\ \A w \in W : run[w][1] # c
\* a pass begins when the previous one is complete; a normal return means complete work
Ordered == \A c \in C : \A p \in 1 .. PASSES - 1 :
              (pass[c] > p \/ (\E w \in W : run[w][1] = c /\ run[w][2] > p)) => did[c][p] = 0 .. H - 1
OkComplete == \A c \in C : ph[c] = "ok" => did[c][PASSES] = 0 .. H - 1
\* a failure is reported
Reported == \A c \in C : (\E x \in DOMAIN res : x[1] = c /\ res[x] = "exc") => ph[c] # "ok"
\* every construction ends
Finite == <>[][FALSE]_vars
Complete == ~ENABLED Next => \A c \in C : Gone(c)
=============================================================================
