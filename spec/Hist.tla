-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* Histories of Session over a few slots: the graph of all ways to build,  *)
(* copy, move, assign, refill and destroy templates, functions and proxies.*)
(* Meshes are abstracted to names, data to names; Session's actions do not *)
(* look inside.  Every transition of the reachable graph is printed (with  *)
(* EDGES set), to be walked through on the real library.                   *)
(***************************************************************************)
EXTENDS Session, IOUtils, Json

NT == atoi(IOEnv.NT)
NF == atoi(IOEnv.NF)
NP == atoi(IOEnv.NP)
Meshes == 1 .. 2
Data == 1 .. 2
VARIABLE op             \* the last operation
hvars == <<tm, fn, px, op>>

Ts == 1 .. NT
Fs == 1 .. NF
Ps == 1 .. NP
Do(rec) == op' = rec
Hows == {"new", "into", "move", "mesh_rvalue", "direct"}

HInit == SInit /\ op = [k |-> "init"]
HNext ==
    \/ \E t \in Ts, m \in Meshes : TNew(t, m, 0) /\ Do([k |-> "T", t |-> t, m |-> m])
    \/ \E t, s \in Ts :
         \/ TCopy(t, s) /\ t # s /\ Do([k |-> "TCopy", t |-> t, s |-> s])
         \/ TMove(t, s) /\ Do([k |-> "TMove", t |-> t, s |-> s])
         \/ TAssign(t, s) /\ Do([k |-> "TAssign", t |-> t, s |-> s])
         \/ TMoveAssign(t, s) /\ Do([k |-> "TMoveAssign", t |-> t, s |-> s])
    \/ \E t \in Ts : TDel(t) /\ Do([k |-> "TDel", t |-> t])
    \/ \E f \in Fs, t \in Ts, h \in Hows, d \in Data :
         Fill(f, t, h, d, d, 0) /\ Do([k |-> "F", f |-> f, t |-> t, how |-> h])
    \/ \E f \in Fs : FDefault(f) /\ Do([k |-> "FDefault", f |-> f])
    \/ \E f, g \in Fs :
         \/ FCopy(f, g) /\ f # g /\ Do([k |-> "FCopy", f |-> f, g |-> g])
         \/ FAssign(f, g) /\ Do([k |-> "FAssign", f |-> f, g |-> g])
         \/ FMove(f, g) /\ Do([k |-> "FMove", f |-> f, g |-> g])
         \/ FMoveAssign(f, g) /\ Do([k |-> "FMoveAssign", f |-> f, g |-> g])
    \/ \E f \in Fs : FDel(f) /\ Do([k |-> "FDel", f |-> f])
    \/ /\ "FAILS" \in DOMAIN IOEnv
       /\ \/ \E t \in Ts : AssignTFails(t) /\ Do([k |-> "TFails", t |-> t])
          \/ \E f \in Fs : AssignFFails(f) /\ Do([k |-> "FFails", f |-> f])
          \/ MakeFails /\ Do([k |-> "MakeFails"])
    \/ \E p \in Ps, t \in Ts : PNew(p, t, 0) /\ Do([k |-> "P", p |-> p, t |-> t])

\* data names are interchangeable: only which functions share data matters
MeshOf(S, i) == IF i \notin DOMAIN S THEN 0 ELSE IF S[i] = Moved THEN 3 ELSE S[i].ax
HView == <<[t \in Ts |-> MeshOf(tm, t)], [f \in Fs |-> MeshOf(fn, f)],
           {<<f, g>> \in Fs \X Fs : f < g /\ Usable(fn, f) /\ Usable(fn, g) /\ fn[f] = fn[g]},
           [p \in Ps |-> MeshOf(px, p)]>>
Edge == IF "EDGES" \in DOMAIN IOEnv THEN PrintT("EDGE " \o ToJson(<<HView, op', HView'>>)) ELSE TRUE

-----------------------------------------------------------------------------
TypeOK ==
    /\ \A t \in DOMAIN tm : t \in Ts /\ (tm[t] = Moved \/ tm[t].ax \in Meshes)
    /\ \A f \in DOMAIN fn : f \in Fs /\ (fn[f] = Moved \/ (fn[f].ax \in Meshes /\ fn[f].comp \in Data))
    /\ \A p \in DOMAIN px : px[p].ax \in Meshes
\* objects an operation works on
Touched(o) == (IF "f" \in DOMAIN o THEN {<<"f", o.f>>} ELSE {})
              \cup (IF "g" \in DOMAIN o /\ o.k \in {"FMove", "FMoveAssign"} THEN {<<"f", o.g>>} ELSE {})
              \cup (IF "t" \in DOMAIN o /\ (o.k # "F" \/ o.how = "move") /\ o.k # "P" THEN {<<"t", o.t>>} ELSE {})
              \cup (IF "s" \in DOMAIN o /\ o.k \in {"TMove", "TMoveAssign"} THEN {<<"t", o.s>>} ELSE {})
              \cup (IF "p" \in DOMAIN o THEN {<<"p", o.p>>} ELSE {})
Same(S, S2, i) == (i \in DOMAIN S) = (i \in DOMAIN S2) /\ (i \in DOMAIN S => S[i] = S2[i])
Independence == [][ /\ \A t \in Ts : Same(tm, tm', t) \/ <<"t", t>> \in Touched(op')
                    /\ \A f \in Fs : Same(fn, fn', f) \/ <<"f", f>> \in Touched(op')
                    /\ \A p \in Ps : Same(px, px', p) \/ <<"p", p>> \in Touched(op') ]_hvars
=============================================================================
