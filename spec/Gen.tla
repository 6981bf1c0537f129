--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Scenarios for the session recorder, computed from the specification:    *)
(* meshes of every kind from the smallest admissible size up, control      *)
(* points, the data they produce (DataOf), and the calls to make.          *)
(* Parameters come from the environment:                                   *)
(*   SEED, FROM, TO   scenarios FROM..TO-1 of the stream named by SEED     *)
(*   INST             JSON file: [{"d":1,"o":3,"key":"d1o3","nc":1}, ...]  *)
(*   FAM              JSON file: {"node":true, ...} families of queries    *)
(*   OUT              where to write the scenarios                         *)
(***************************************************************************)
EXTENDS Spline, Json, IOUtils, SequencesExt

Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
Inst == JsonDeserialize(IOEnv.INST)
Fam == JsonDeserialize(IOEnv.FAM)
On(f) == f \in DOMAIN Fam /\ Fam[f] > 0
Cnt(f) == IF f \in DOMAIN Fam THEN Fam[f] ELSE 0

-----------------------------------------------------------------------------
(* Reproducible pseudo-random choice *)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]

-----------------------------------------------------------------------------
(* Axes *)
Pow4(d) == CASE d = 1 -> 4 [] d = 2 -> 16 [] d = 3 -> 64 [] d = 4 -> 256 [] OTHER -> 1024
Step(d) == CASE d = 1 -> 1 [] d = 2 -> 7 [] d = 3 -> 23 [] d = 4 -> 89 [] OTHER -> 331

\* kind code 0..3 of axis e in scenario round r: bit 0 aperiodic, bit 1 nonuniform
Code(r, D, O, e) == (((r * Step(D) + O * 5 * D + R(<<Seed % 1000, D>>, Pow4(D))) % Pow4(D)) \div (4 ^ (e - 1))) % 4

\* nodes beyond the smallest admissible number: first none, then of all magnitudes
Extra(s, r, D, e, xl) ==
    CASE xl -> IF e = 1 + R(<<s, 10>>, D) THEN (CASE D = 1 -> Pick(<<s, 1>>, <<120, 250, 500, 1024, 4090>>) + R(<<s, 7>>, 40)
                                                  [] D = 2 -> 60 + R(<<s, 7>>, 200)
                                                  [] OTHER -> 30 + R(<<s, 7>>, 40))
               ELSE R(<<s, 1, e>>, 2)
      [] D = 1 -> IF r < 4 THEN 0
                  ELSE Pick(<<s, 1>>, <<1, 1, 2, 3, 4 + R(<<s, 7>>, 4), 4 + R(<<s, 7>>, 12), 10 + R(<<s, 7>>, 30), 40 + R(<<s, 7>>, 100)>>)
      [] D = 2 -> Pick(<<s, 1, e>>, <<0, 0, 1, 1, 2, 3, 5, 8, 12, 30>>)
      [] D = 3 -> Pick(<<s, 1, e>>, <<0, 0, 1, 2, 3>>)
      [] D = 5 -> 0
      [] OTHER -> Pick(<<s, 1, e>>, <<0, 0, 1>>)

\* float coordinates: only short dyadic numbers; "unit": default range of the shorthands
Xl(inst) == "xl" \in DOMAIN inst /\ inst.xl
Fl(inst) == "fl" \in DOMAIN inst /\ inst.fl
UnitGeom(s, D) == On("routes") /\ D = 1 /\ R(<<s, 6>>, 3) = 0

\* A little extra that makes a number longer than the significand of a float (but
\* not of a double), so that nothing may be narrowed on the way: in every other
\* scenario with double coordinates.
LongOk == ~On("coarse") /\ \A k \in DOMAIN Inst : ~Fl(Inst[k])
Extn(key, unit) == IF LongOk THEN R(key, 30011) ** unit ELSE "0"

Geom(s, r, D, O, e, fl, xl) ==
    LET code == Code(r, D, O, e)
        p == code % 2 = 0
        u == code < 2
        n0 == MinNodes(O, p) + Extra(s, r, D, e, xl)
        n == IF n0 < 2 THEN 2 ELSE n0
        unit == UnitGeom(s, D)
        \* no length is special either: everything of this axis times a power of two
        sc == IF D > 2 \/ unit \/ fl \/ xl \/ On("coarse") THEN "1" ELSE Pick(<<s, 24, e>>, <<"1", "1", "1", "1", "1:-45", "1:40">>)
        long == ~unit /\ ~fl /\ ~xl /\ LongOk /\ R(<<s, 19, e>>, 2) = 0
        lo0 == IF unit THEN "0" ELSE IF fl THEN Pick(<<s, 2, e>>, <<"0", "-2", "3/4", "-5/8">>)
              ELSE Pick(<<s, 2, e>>, <<"0", "-2", "3/4", "-5/8", "17", "-1024">>)
        dyad == unit \/ fl \/ R(<<s, 3, e>>, 3) > 0
        \* geometric grading: only node values are asked for, control points are ill-conditioned
        graded == ~p /\ ~u /\ O \in 1 .. 4 /\ On("graded") /\ R(<<s, 16, e>>, 2) = 0
        lo == sc ** (IF long /\ (~u \/ ~dyad) /\ ~graded THEN lo0 ++ Extn(<<s, 20, e>>, "1:-30") ELSE lo0)
        dx == IF unit THEN "1" ELSE sc ** (IF dyad THEN Pick(<<s, 4, e>>, IF fl THEN <<"1/4", "1/2", "1", "2", "3/8">> ELSE <<"1/4", "1/2", "1", "2", "3/8", "1:-9", "640">>)
              ELSE RatOf(7, 4 * (n - 1)))
        ratio == IF O <= 2 THEN 8 ELSE IF O = 3 THEN 4 ELSE 2
        rev == R(<<s, 17, e>>, 2)
        width(i) == LET k == (IF R(<<s, 18, e>>, 3) = 0 THEN n \div 2 ELSE 0)     \* where the grading turns
                        j == (IF i > k THEN i - k ELSE k - i) % 11
                    IN (IF rev = 0 THEN ratio ^ j ELSE RatOf(1, ratio ^ j))
        gaps == IF O <= 3 /\ ~fl /\ R(<<s, 8, e>>, 3) = 0 THEN <<"1/16", "1/4", "1", "3", "1/8">>
                ELSE IF O >= 4 THEN <<"3/4", "1", "1", "5/4">> ELSE <<"1/2", "3/4", "1", "5/4", "3/2">>
        RECURSIVE Nodes(_, _)
        Nodes(i, acc) == IF i = n THEN acc
                         ELSE Nodes(i + 1, Append(acc, acc[i] ++ sc ** (IF graded THEN width(i) ELSE Pick(<<s, 5, e, i>>, gaps) ++ (IF long THEN Extn(<<s, 20, e, i>>, "1:-30") ELSE "0"))))
    IN IF u THEN [ax |-> UniAxis(O, p, n, lo, lo ++ ((n - 1) ** dx)),
                  exact |-> dyad, short |-> ~long, lo |-> lo, hi |-> lo ++ ((n - 1) ** dx)]
       ELSE [ax |-> NonAxis(O, p, Nodes(1, <<lo>>)), exact |-> p \/ O \in {0, 1, 2, 4}, short |-> TRUE,
             lo |-> lo, hi |-> lo]

AxJson(g) == IF g.ax.u
             THEN [p |-> g.ax.p, u |-> TRUE, n |-> g.ax.n, lo |-> g.lo, hi |-> g.hi]
             ELSE [p |-> g.ax.p, u |-> FALSE, n |-> g.ax.n,
                   x |-> [i \in 1 .. g.ax.n |-> g.ax.x[i - 1]]]

-----------------------------------------------------------------------------
(* Coordinates *)
Size(a) == LET g == Hi(a) -- Lo(a)
           IN IF RatLt(g, "1:-20") THEN "1:-45" ELSE IF RatLt("1:30", g) THEN "1:40" ELSE "1"
InSeg(a, k, key) ==
    LET sc == Size(a) IN
    sc ** (RatRound((a.t[k] ++ (Pick(key, <<"1/4", "3/8", "1/2", "5/8", "3/4">>) ** (a.t[k + 1] -- a.t[k]))) // sc,
                    IF On("coarse") THEN 10 ELSE 22) ++ Extn(Append(key, 8), "1:-34"))
Inside(a, key) == InSeg(a, SegLo(a) + R(key, SegHi(a) - SegLo(a) + 1), Append(key, 9))
\* points outside the range of an aperiodic axis (any point if periodic)
Outside(a, key) ==
    IF a.p THEN Inside(a, key)
    ELSE IF ~On("coarse") /\ R(Append(key, 2), 5) = 0
         THEN (IF R(key, 2) = 0 THEN "next- " \o Lo(a) ELSE "next+ " \o Hi(a))
         ELSE LET by == Size(a) ** Pick(Append(key, 1), IF On("coarse") THEN <<"1/8", "1", "9/4">> ELSE <<"1:-40", "1/8", "1", "9/4">>)
              IN IF R(key, 2) = 0 THEN Lo(a) -- by ELSE Hi(a) ++ by
\* ends of the range, breakpoints (where they are exactly representable)
Special(g, key) ==
    LET a == g.ax IN
    CASE R(key, 4) = 0 /\ (~a.p \/ g.exact) -> Lo(a)
      [] R(key, 4) = 1 /\ (~a.p \/ g.exact) -> Hi(a)
      [] R(key, 4) >= 2 /\ g.exact -> a.t[SegLo(a) + R(Append(key, 4), SegHi(a) - SegLo(a) + 2)]
      [] OTHER -> Inside(a, key)
Shift(g, x, key) ==
    IF ~g.ax.p THEN x
    ELSE x ++ (Pick(key, IF g.exact /\ ~On("coarse") THEN <<-1000, -17, -2, -1, 1, 2, 5, 1024>> ELSE <<-3, -1, 1, 2>>) ** Period(g.ax))

\* Ways to build a function, applicable to the axes
IntAt(x) == RatEq(x, RatFloor(x)) /\ RatLeq(RatAbs(x), 1000000)     \* an int
IntEnds(g) == IntAt(g.lo) /\ IntAt(g.hi)
Routes(s, r, gs, D) ==
    <<"new", "into", "mesh_rvalue", "direct", "move", "direct_list", "direct_stream", "templ_list", "templ_stream">> \o
    (IF \A e \in 1 .. D : gs[e].short THEN <<"direct_ptr", "templ_ptr">> ELSE <<>>) \o     \* ranges as floats
    (IF D > 1 THEN <<>> ELSE
     <<"t_iter", "t_list", "t_ptr", "f1_iter", "w1", "wt1", "tb">>
     \o (IF gs[1].ax.p THEN <<>> ELSE <<"f1_noper", "tb_noper">>)
     \o (IF gs[1].ax.u THEN (IF gs[1].short THEN <<"f1_float">> ELSE <<>>) ELSE <<"f1_list", "f1_stream", "f1_ptr">>)
     \o (IF gs[1].ax.u /\ IntEnds(gs[1]) THEN <<"f1_int", "wt1_int">> ELSE <<>>)
     \o (IF gs[1].ax.u /\ IntAt(gs[1].lo) THEN <<"f1_mixlo", "w1_mixlo", "wt1_mixlo", "tb_mixlo">> ELSE <<>>)
     \o (IF gs[1].ax.u /\ IntAt(gs[1].hi) THEN <<"f1_mixhi", "w1_mixhi", "wt1_mixhi", "tb_mixhi">> ELSE <<>>)
     \o (IF gs[1].ax.u /\ UnitGeom(s, D)
         THEN <<"w1_def", "wt1_def">> \o (IF gs[1].ax.p THEN <<>> ELSE <<"w1_def_noarg">>) ELSE <<>>))

VKind(key) == Pick(key, <<"call", "callv", "at", "atv", "spl">>)
DKind(key) == Pick(key, <<"der", "derp", "derl", "derat", "deratp", "deratl">>)

VQ(k, x) == [k |-> k, x |-> x, d |-> [e \in 1 .. Len(x) |-> 0], i |-> [e \in 1 .. Len(x) |-> 0]]
DQ(k, x, d) == [k |-> k, x |-> x, d |-> d, i |-> [e \in 1 .. Len(x) |-> 0]]

\* derivative orders; the highest derivative jumps at breakpoints, so it is
\* only asked for where breakpoints are exact or the point is off them
Ders(O, D, top, key) ==
    [e \in 1 .. D |-> R(Append(key, e), IF top THEN O + 1 ELSE IF O = 0 THEN 1 ELSE O)]

-----------------------------------------------------------------------------
Scen(s) ==
    LET inst == Inst[(s % Len(Inst)) + 1]
        r == s \div Len(Inst)
        D == inst.d
        O == inst.o
        gs == TLCEval([e \in 1 .. D |-> Geom(s, r, D, O, e, Fl(inst), Xl(inst))])
        axes == TLCEval([e \in 1 .. D |-> gs[e].ax])
        N == DataSize(axes)
        impulse == R(<<s, 11>>, 6) = 0
        only == R(<<s, 14>>, inst.nc) + 1       \* the component an impulse is in
        \* magnitude of the data: none is special
        scale == Pick(<<s, 15>>, IF Fl(inst) THEN <<"1", "1", "1:-30", "1:25">> ELSE <<"1", "1", "1", "1:-70", "1:90", "1:-300", "1:-25">>)
        CtrlOf(k) == TLCEval([c \in 1 .. inst.nc |-> TLCEval([q \in 1 .. N |->
                  scale ** (IF impulse THEN (IF c = only /\ q = 1 + R(<<s, 12, k>>, N) THEN 8 ELSE 0)
                            ELSE (R(<<s, 13, c, q % 25000, q \div 25000, k>>, 19) - 9)
                                 ++ (IF s % 3 = 0 /\ LongOk THEN R(<<s, 23, c, q % 25000, k>>, 30011) ** "1:-32" ELSE "0"))])])
        allExact == \A e \in 1 .. D : gs[e].exact
        \* queries
        nodeIdx == IF N <= Cnt("node") THEN [q \in 1 .. N |-> q - 1]
                   ELSE [q \in 1 .. Cnt("node") |-> IF q = 1 THEN 0 ELSE IF q = 2 THEN N - 1
                                                   ELSE R(<<s, 21, q>>, N)]
        \* end of the period asked for as node m
        NI(q, e) == LET i == IdxAt(axes, e, nodeIdx[q])
                    IN IF axes[e].p /\ i = 0 /\ R(<<s, 22, q, e>>, 2) = 0 THEN axes[e].m ELSE i
        nodeQ == IF ~On("node") THEN <<>> ELSE
                 [q \in 1 .. Len(nodeIdx) |->
                    [k |-> "node", x |-> [e \in 1 .. D |-> axes[e].x[NI(q, e)]],
                     d |-> [e \in 1 .. D |-> 0], i |-> [e \in 1 .. D |-> NI(q, e)]]]
        segs == IF D = 1 THEN SegHi(axes[1]) - SegLo(axes[1]) + 1 ELSE 0
        inQ == IF ~On("in") THEN <<>> ELSE
               [q \in 1 .. (IF D = 1 THEN (IF segs < Cnt("in") THEN segs ELSE Cnt("in")) ELSE 0) |->
                   VQ(VKind(<<s, 31, q>>),
                      <<InSeg(axes[1], SegLo(axes[1]) + (IF segs < Cnt("in") THEN q - 1 ELSE R(<<s, 30, q>>, segs)), <<s, 32, q>>)>>)]
               \o [q \in 1 .. Cnt("in") |->
                   VQ(VKind(<<s, 33, q>>),
                      [e \in 1 .. D |-> IF O > 0 /\ R(<<s, 34, q, e>>, 4) = 0
                                        THEN Special(gs[e], <<s, 35, q, e>>)
                                        ELSE Inside(axes[e], <<s, 36, q, e>>)])]
        knotQ == IF ~On("knot") \/ ~allExact THEN <<>> ELSE
               [q \in 1 .. Cnt("knot") |->
                   VQ(VKind(<<s, 37, q>>), [e \in 1 .. D |-> Special(gs[e], <<s, 38, q, e>>)])]
        derQ == [q \in 1 .. Cnt("der") |->
                   LET sp == R(<<s, 41, q>>, 3) = 0
                       x == [e \in 1 .. D |-> IF sp THEN Special(gs[e], <<s, 42, q, e>>)
                                              ELSE Inside(axes[e], <<s, 43, q, e>>)]
                   IN IF R(<<s, 44, q>>, 8) = 0     \* beyond the order in one axis
                      THEN DQ(DKind(<<s, 45, q>>), x,
                              [Ders(O, D, TRUE, <<s, 46, q>>) EXCEPT ![1 + R(<<s, 47, q>>, D)] = O + 1 + R(<<s, 48, q>>, 2)])
                      ELSE DQ(DKind(<<s, 45, q>>), x, Ders(O, D, ~sp \/ allExact, <<s, 46, q>>))]
        shiftQ == [q \in 1 .. Cnt("shift") |->
                   LET sp == R(<<s, 51, q>>, 2) = 0 /\ (allExact \/ O > 0)
                       x == [e \in 1 .. D |->
                               Shift(gs[e], IF sp THEN Special(gs[e], <<s, 52, q, e>>)
                                            ELSE Inside(axes[e], <<s, 53, q, e>>), <<s, 54, q, e>>)]
                   IN IF R(<<s, 55, q>>, 2) = 0 THEN VQ(VKind(<<s, 56, q>>), x)
                      ELSE DQ(DKind(<<s, 57, q>>), x, Ders(O, D, ~sp \/ allExact, <<s, 58, q>>))]
        outQ == [q \in 1 .. Cnt("out") |->
                   LET which == 1 + R(<<s, 61, q>>, D)
                       x == [e \in 1 .. D |->
                               IF e = which \/ R(<<s, 62, q, e>>, 3) = 0
                               THEN (IF R(<<s, 63, q, e>>, 4) = 0 /\ O > 0
                                     THEN Special(gs[e], <<s, 64, q, e>>)
                                     ELSE Outside(axes[e], <<s, 65, q, e>>))
                               ELSE Inside(axes[e], <<s, 66, q, e>>)]
                       y == IF R(<<s, 67, q>>, 2) = 0 THEN x
                            ELSE [e \in 1 .. D |-> Shift(gs[e], x[e], <<s, 68, q, e>>)]
                   IN IF R(<<s, 69, q>>, 3) > 0 THEN VQ(VKind(<<s, 70, q>>), y)
                      ELSE DQ(DKind(<<s, 71, q>>), y, Ders(O, D, FALSE, <<s, 72, q>>))]
        \* any finite coordinate at all: the result is not predicted, only that the call returns
        wild == <<"1:1023", "-1:1023", "1:600", "-1:600", "1:64", "-1:64", "1:63", "-1:63", "-1:31", "1:53", "-1:-1074", "1:-1074", "1:-1022", "9007199254740993/7", "-123456789/1000">>
        WildX(e, q) ==
            LET a == axes[e] IN
            CASE R(<<s, 73, q, e>>, 8) <= 1 -> Pick(<<s, 74, q, e>>, wild)
              [] R(<<s, 73, q, e>>, 8) = 2 -> "next" \o Pick(<<s, 75, q, e>>, <<"+ ", "- ">>) \o Lo(a)
              [] R(<<s, 73, q, e>>, 8) = 3 -> "next" \o Pick(<<s, 75, q, e>>, <<"+ ", "- ">>) \o Hi(a)
              [] R(<<s, 73, q, e>>, 8) = 4 -> "next" \o Pick(<<s, 75, q, e>>, <<"+ ", "- ">>) \o a.t[SegLo(a) + R(<<s, 76, q, e>>, SegHi(a) - SegLo(a) + 2)]
              [] R(<<s, 73, q, e>>, 8) = 5 -> IF R(<<s, 77, q, e>>, 2) = 0 THEN Lo(a) ELSE Hi(a)
              [] R(<<s, 73, q, e>>, 8) = 6 -> "next" \o Pick(<<s, 75, q, e>>, <<"+ ", "- ">>) \o (Lo(a) ++ (Pick(<<s, 78, q, e>>, <<-1000000, -7, -1, 1, 3, 999999>>) ** Period(a)))
              [] OTHER -> Inside(a, <<s, 79, q, e>>)
        wildQ == [q \in 1 .. Cnt("wild") |->
                    LET k == IF R(<<s, 88, q>>, 2) = 0 THEN VKind(<<s, 89, q>>) ELSE DKind(<<s, 89, q>>)
                    IN [k |-> "w" \o k, x |-> [e \in 1 .. D |-> WildX(e, q)], d |-> Ders(O, D, TRUE, <<s, 87, q>>), i |-> [e \in 1 .. D |-> 0]]]
        \* coordinates given as integers (and other arithmetic types); derivatives below the top order, as integers may be knots
        intQ == [q \in 1 .. IF O = 0 THEN 0 ELSE Cnt("int") |->
                    LET x == [e \in 1 .. D |-> Inside(axes[e], <<s, 95, q, e>>)]
                        n == [e \in 1 .. D |-> RatFloor(x[e])]
                        ok == \A e \in 1 .. D : RatEq(Size(axes[e]), 1) /\ RatLeq(RatAbs(n[e]), 1000000) /\ RatLeq(Lo(axes[e]) -- 1, n[e])
                    IN IF ~ok THEN VQ("call", x)
                       ELSE IF R(<<s, 96, q>>, 2) = 0 THEN VQ(Pick(<<s, 97, q>>, <<"int", "intat", "mix", "mixat">>), n)
                       ELSE DQ(Pick(<<s, 97, q>>, <<"dint", "dintat", "dmix", "dmixat">>), n, Ders(O, D, FALSE, <<s, 98, q>>))]
        qs == intQ \o wildQ \o nodeQ \o inQ \o knotQ \o derQ \o shiftQ \o outQ
        pxs == [q \in 1 .. Cnt("proxy") |->
                   LET x == [e \in 1 .. D |-> Inside(axes[e], <<s, 85, q, e>>)]
                       n == [e \in 1 .. D |-> RatFloor(x[e])]
                       ok == \A e \in 1 .. D : RatEq(Size(axes[e]), 1) /\ RatLeq(RatAbs(n[e]), 1000000) /\ RatLeq(Lo(axes[e]) -- 1, n[e])
                   IN IF On("int") /\ q % 2 = 0 /\ O > 0 /\ ok THEN [x |-> n, form |-> 2 + R(<<s, 86, q>>, 2)]
                   ELSE
                   [x |-> CASE R(<<s, 81, q>>, 4) = 0 /\ O > 0 ->
                                  [e \in 1 .. D |-> Special(gs[e], <<s, 82, q, e>>)]
                            [] R(<<s, 81, q>>, 4) = 1 ->
                                  [e \in 1 .. D |-> Shift(gs[e], Outside(axes[e], <<s, 83, q, e>>), <<s, 84, q, e>>)]
                            [] OTHER -> [e \in 1 .. D |-> Inside(axes[e], <<s, 85, q, e>>)],
                    form |-> R(<<s, 86, q>>, 2)]]
        nf == 1 + Cnt("data")
        ctrls == TLCEval([k \in 1 .. nf |-> CtrlOf(k)])
        datas == TLCEval([k \in 1 .. nf |-> TLCEval([c \in 1 .. inst.nc |-> DataOf(axes, ctrls[k][c])])])
        hows == IF On("routes") THEN Routes(s, r, gs, D) ELSE <<>>
        fills == IF On("routes")
                 THEN [j \in 1 .. Len(hows) |->
                        [op |-> "F", f |-> IF hows[j] = "into" THEN 1 ELSE j, t |-> IF hows[j] = "move" THEN 2 ELSE 1,
                         how |-> hows[j], c |-> ctrls[1], data |-> datas[1]]]
                 ELSE [k \in 1 .. nf |->
                        [op |-> "F", f |-> k, t |-> 1, how |-> Pick(<<s, 91, k>>, <<"new", "new", "direct">>),
                         c |-> ctrls[k], data |-> datas[k]]]
        fids == IF On("routes") THEN SelectSeq([j \in 1 .. Len(hows) |-> j], LAMBDA j : hows[j] # "into") ELSE [k \in 1 .. nf |-> k]
        pxNew == [q \in 1 .. Len(pxs) |-> [op |-> "P", p |-> q, t |-> 1, x |-> pxs[q].x, form |-> pxs[q].form]]
        PxUse(f) == [q \in 1 .. Len(pxs) |-> [op |-> "PQ", p |-> q, f |-> f]]
        T(t) == [op |-> "T", t |-> t, ax |-> [e \in 1 .. D |-> AxJson(gs[e])]]
        drop == Len(pxs) > 0 /\ R(<<s, 93>>, 2) = 0    \* proxies outlive the template
        before == IF drop THEN 1 + R(<<s, 94>>, nf) ELSE nf
        Per(f) == (IF On("info") THEN <<[op |-> "Info", f |-> f]>> ELSE <<>>)
                  \o (IF qs = <<>> THEN <<>> ELSE <<[op |-> "Q", f |-> f, q |-> qs]>>)
                  \o PxUse(f)
        ops == <<T(1)>>
               \o (IF On("routes") THEN <<T(2)>> ELSE <<>>)
               \o (IF R(<<s, 92>>, 2) = 0 THEN pxNew \o fills ELSE fills \o pxNew)
               \o (IF drop THEN <<[op |-> "TDel", t |-> 1]>> ELSE <<>>)
               \o FlattenSeq([k \in 1 .. Len(fids) |-> Per(fids[k])])
               \o (IF Len(pxs) > 0 THEN PxUse(1) ELSE <<>>)
    IN [id |-> s, key |-> inst.key, ops |-> ops]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Scen(From + k - 1)])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
