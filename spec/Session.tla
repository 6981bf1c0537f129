------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The interpolation library as a state machine of objects and calls.      *)
(*                                                                         *)
(* tm : template slots    id -> [ax : axes, tol]          (or moved-from)  *)
(* fn : function slots    id -> [ax, comp, data, cmax, tol]                *)
(*      comp: control points of each component (<<>> when only the data    *)
(*      are known), data: data of each component                           *)
(* px : evaluation proxies  id -> [ax, x]                                  *)
(*                                                                         *)
(* Constructions change the slots; evaluations are observations, allowed   *)
(* only with results that agree with the exact mathematics of Spline up to *)
(* the rounding allowed by tol.                                            *)
(***************************************************************************)
EXTENDS Spline

VARIABLES tm, fn, px
svars == <<tm, fn, px>>

Moved == [moved |-> TRUE]       \* moved-from or default constructed object
Usable(S, i) == i \in DOMAIN S /\ S[i] # Moved
Put(S, i, v) == (i :> v) @@ S
Drop(S, i) == [j \in DOMAIN S \ {i} |-> S[j]]

SInit == tm = <<>> /\ fn = <<>> /\ px = <<>>

-----------------------------------------------------------------------------
(* Templates *)
TNew(t, axes, tol) == /\ tm' = Put(tm, t, [ax |-> axes, tol |-> tol])
                      /\ UNCHANGED <<fn, px>>
TCopy(t, s) == Usable(tm, s) /\ tm' = Put(tm, t, tm[s]) /\ UNCHANGED <<fn, px>>
TMove(t, s) == /\ Usable(tm, s) /\ t # s
               /\ tm' = Put(Put(tm, s, Moved), t, tm[s]) /\ UNCHANGED <<fn, px>>
\* assignment: to an existing (possibly moved-from) template
TAssign(t, s) == t \in DOMAIN tm /\ TCopy(t, s)
TMoveAssign(t, s) == t \in DOMAIN tm /\ TMove(t, s)
TDel(t) == t \in DOMAIN tm /\ tm' = Drop(tm, t) /\ UNCHANGED <<fn, px>>

(* Functions *)
MkFn(T, comp, data, cmax) ==
    [ax |-> T.ax, comp |-> comp, data |-> data, cmax |-> cmax, tol |-> T.tol]

Fill(f, t, how, comp, data, cmax) ==
    /\ Usable(tm, t)
    /\ how = "into" => f \in DOMAIN fn
    /\ fn' = Put(fn, f, MkFn(tm[t], comp, data, cmax))
    /\ tm' = IF how = "move" THEN Put(tm, t, Moved) ELSE tm
    /\ UNCHANGED px
\* The construction was ended by an exception of the value type: an object being filled is
\* left unspecified, nothing else changes
FillFails(f, t, how) ==
    /\ Usable(tm, t)
    /\ fn' = IF how = "into" THEN Put(fn, f, Moved) ELSE fn
    /\ tm' = IF how = "move" THEN Put(tm, t, Moved) ELSE tm
    /\ UNCHANGED px
FDefault(f) == fn' = Put(fn, f, Moved) /\ UNCHANGED <<tm, px>>
FCopy(f, g) == Usable(fn, g) /\ fn' = Put(fn, f, fn[g]) /\ UNCHANGED <<tm, px>>
FAssign(f, g) == f \in DOMAIN fn /\ FCopy(f, g)
FMove(f, g) == /\ Usable(fn, g) /\ f # g
               /\ fn' = Put(Put(fn, g, Moved), f, fn[g]) /\ UNCHANGED <<tm, px>>
FMoveAssign(f, g) == f \in DOMAIN fn /\ FMove(f, g)
FDel(f) == f \in DOMAIN fn /\ fn' = Drop(fn, f) /\ UNCHANGED <<tm, px>>

(* Memory ran out during an operation: an object being overwritten is left *)
(* unspecified, an object being made does not exist, nothing else changes. *)
AssignTFails(t) == t \in DOMAIN tm /\ tm' = Put(tm, t, Moved) /\ UNCHANGED <<fn, px>>
AssignFFails(f) == f \in DOMAIN fn /\ fn' = Put(fn, f, Moved) /\ UNCHANGED <<tm, px>>
MakeFails == UNCHANGED <<tm, fn, px>>

(* B-splines built directly from knots and control points are functions   *)
(* whose axes have no nodes.                                               *)
BAxis(o, p, m, ts) ==
    [o |-> o, p |-> p, u |-> FALSE, n |-> 0, m |-> m, x |-> <<>>,
     t |-> TLCEval([i \in 0 .. Len(ts) - 1 |-> RatNorm(ts[i + 1])])]
BAxisOk(a) ==
    /\ Cardinality(DOMAIN a.t) = a.m + a.o + 1 + (IF a.p THEN a.o ELSE 0)
    /\ \A i \in 0 .. Cardinality(DOMAIN a.t) - 2 : RatLeq(a.t[i], a.t[i + 1])
    /\ RatLt(a.t[SegLo(a)], a.t[SegLo(a) + 1]) /\ RatLt(a.t[SegHi(a)], a.t[SegHi(a) + 1])
    /\ a.p => \A i \in DOMAIN a.t : i + a.m \in DOMAIN a.t => RatEq(a.t[i + a.m], a.t[i] ++ Period(a))
BNew(f, how, axes, comp, cmax, tol) ==
    /\ how = "reload" => /\ Usable(fn, f)     \* knots and control points replaced
                         /\ \A d \in 1 .. Len(axes) : fn[f].ax[d].p = axes[d].p
    /\ fn' = Put(fn, f, [ax |-> axes, comp |-> comp, data |-> <<>>, cmax |-> cmax, tol |-> tol])
    /\ UNCHANGED <<tm, px>>

(* Proxies *)
PNew(p, t, x) == /\ Usable(tm, t)
                 /\ px' = Put(px, p, [ax |-> tm[t].ax, x |-> x])
                 /\ UNCHANGED <<tm, fn>>

-----------------------------------------------------------------------------
(* Observations *)

OutOfRange(axes, x) ==
    \E d \in 1 .. Len(axes) :
        ~axes[d].p /\ (RatLt(x[d], Lo(axes[d])) \/ RatLt(Hi(axes[d]), x[d]))

\* Rounding of a coordinate far from zero (wrapped or not) counts in units of the
\* segment it lies in.
Cond(F, loc, x) ==
    RatSum(LAMBDA d : LET a == F.ax[d]
                      IN (RatAbs(x[d]) ++ (RatAbs(Lo(a)) ++ RatAbs(Hi(a)))) // (a.t[loc[d].k + 1] -- a.t[loc[d].k]),
           1, Len(F.ax)) ** (IF RatLt(F.tol, "1:-20") THEN "1:-13" ELSE "1:-6") ++ "1"

\* Is the observed sequence of components r right for value/derivative d at x?
\* Rounding is measured against the sum of magnitudes of the terms.
ValueOk(F, x, d, r) ==
    /\ Len(r) = Len(F.comp)
    /\ \A c \in 1 .. Len(r) : RatIsNum(r[c])
    /\ IF \E k \in 1 .. Len(F.ax) : d[k] > F.ax[k].o
       THEN \A c \in 1 .. Len(r) : RatEq(r[c], 0)
       ELSE LET loc == Locals(F.ax, x, d)
                RECURSIVE Mag(_)
                Mag(k) == IF k = 0 THEN F.cmax ELSE AbsSum(loc[k].b) ** Mag(k - 1)
                err == (F.tol ** Mag(Len(F.ax))) ** Cond(F, loc, x)
            IN \A c \in 1 .. Len(r) :
                  RatNear(Contract(F.ax, loc, 1, 0, F.comp[c]), r[c], err)

\* The value at a data node is the datum
FlatIdx(axes, i) ==
    LET RECURSIVE Fl(_, _)
        Fl(d, acc) == IF d > Len(axes) THEN acc ELSE Fl(d + 1, acc * axes[d].m + (i[d] % axes[d].m))
    IN Fl(1, 0)
NodeOk(F, i, x, r) ==
    /\ \A d \in 1 .. Len(F.ax) :    \* x is (the rounding of) the node
          RatNear(x[d], F.ax[d].x[i[d]], (F.tol // 64) ** (1 ++ RatAbs(x[d])))
    /\ Len(r) = Len(F.data)
    /\ \A c \in 1 .. Len(r) :
          RatIsNum(r[c]) /\ RatNear(F.data[c][FlatIdx(F.ax, i) + 1], r[c], F.tol ** F.cmax)

Checked == {"at", "atv", "derat", "deratp", "deratl", "intat", "mixat", "dintat", "dmixat"}

\* Calls at coordinates where rounding makes the value unpredictable: they
\* return (or, if checked and out of range, throw), no more is said.
WildKinds == {"wcall", "wcallv", "wat", "watv", "wspl", "wder", "wderp", "wderl", "wderat", "wderatp", "wderatl"}
WildChecked == {"wat", "watv", "wderat", "wderatp", "wderatl"}
WildOk(F, q) ==
    q.r = <<IF q.k \in WildChecked /\ OutOfRange(F.ax, q.x) THEN "domain_error" ELSE "returned">>

QueryOk(f, q) ==
    /\ Usable(fn, f)
    /\ LET F == fn[f] IN
       IF q.k \in WildKinds THEN WildOk(F, q)
       ELSE IF q.k = "node" THEN NodeOk(F, q.i, q.x, q.r)
       ELSE IF q.k \in Checked /\ OutOfRange(F.ax, q.x) THEN q.r = <<"domain_error">>
       ELSE ValueOk(F, q.x, q.d, q.r)

ProxyOk(p, f, r) ==
    /\ p \in DOMAIN px /\ Usable(fn, f)
    /\ px[p].ax = fn[f].ax
    /\ ValueOk(fn[f], px[p].x, [d \in 1 .. Len(fn[f].ax) |-> 0], r)

InfoOk(f, info, o) ==
    /\ Usable(fn, f)
    /\ LET ax == fn[f].ax IN
       /\ Len(info) = Len(ax)
       /\ \A d \in 1 .. Len(ax) :
            /\ info[d].p = ax[d].p /\ info[d].u = ax[d].u /\ o = ax[d].o
            /\ IF ax[d].p
               THEN LET e == fn[f].tol ** (1 ++ (RatAbs(Lo(ax[d])) ++ RatAbs(Hi(ax[d]))))
                    IN RatNear(info[d].lo, Lo(ax[d]), e) /\ RatNear(info[d].hi, Hi(ax[d]), e)
               ELSE RatEq(info[d].lo, Lo(ax[d])) /\ RatEq(info[d].hi, Hi(ax[d]))

\* order, periodicity, knots, range and (unless rearranged) control points
BInfoOk(f, info, o, hasc, c) ==
    /\ Usable(fn, f)
    /\ LET ax == fn[f].ax IN
       /\ Len(info) = Len(ax)
       /\ \A d \in 1 .. Len(ax) :
            /\ info[d].p = ax[d].p /\ o = ax[d].o
            /\ info[d].k = Len(info[d].t) /\ Len(info[d].t) = Cardinality(DOMAIN ax[d].t)
            /\ \A i \in DOMAIN ax[d].t : RatEq(info[d].t[i + 1], ax[d].t[i])
            /\ RatEq(info[d].lo, Lo(ax[d])) /\ RatEq(info[d].hi, Hi(ax[d]))
       /\ hasc => /\ Len(c) = Len(fn[f].comp)
                  /\ \A k \in 1 .. Len(c) : Len(c[k]) = Len(fn[f].comp[k]) /\ \A q \in 1 .. Len(c[k]) : RatEq(c[k][q], fn[f].comp[k][q])

Observe == UNCHANGED svars
=============================================================================
