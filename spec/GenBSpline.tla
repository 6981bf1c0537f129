------------------------------ MODULE GenBSpline ------------------------------
(* Scenarios for B-splines given by knots and control points: clamped,      *)
(* unclamped and periodic knot vectors, repeated knots, any hint.           *)
EXTENDS Session, Json, IOUtils, SequencesExt
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
Inst == JsonDeserialize(IOEnv.INST)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]

\* kind 0 periodic, 1 clamped, 2 unclamped
Kind(s, r, e) == (r + e * e + R(<<s, 1, e>>, 2)) % 3
Gap(s, v, e, i) == Pick(<<s, 2, v, e, i>>, <<"0", "1/2", "3/4", "1", "5/4">>)
PosGap(s, v, e, i) == Pick(<<s, 2, v, e, i>>, <<"1/4", "1/2", "3/4", "1", "5/4">>)

Ax(s, r, D, O, e, v) ==
    LET kind == Kind(s, r, e)
        segs == 1 + (IF D = 1 THEN R(<<s, 3, v, e>>, 9) ELSE IF D = 2 THEN R(<<s, 3, v, e>>, 4) ELSE R(<<s, 3, v, e>>, 3))
        m == IF kind = 0 THEN segs ELSE segs + O
        K == m + O + 1 + (IF kind = 0 THEN O ELSE 0)
        lo == Pick(<<s, 4, v, e>>, <<"0", "-2", "3/4", "-5/8", "17">>)
        hiSeg == O + segs - 1
        \* gap between knot i and i + 1 (0-based)
        RECURSIVE GapAt(_)
        GapAt(i) == IF kind = 0 THEN LET j == (i - O) % segs IN IF j = 0 \/ j = segs - 1 THEN PosGap(s, v, e, j) ELSE Gap(s, v, e, j)
                    ELSE IF i = O \/ i = hiSeg THEN PosGap(s, v, e, i)
                    ELSE IF kind = 1 /\ (i < O \/ i > hiSeg) THEN "0"
                    ELSE Gap(s, v, e, i)
        RECURSIVE Ts(_, _)
        Ts(i, acc) == IF i = K - 1 THEN acc ELSE Ts(i + 1, Append(acc, acc[i + 1] ++ GapAt(i)))
    IN BAxis(O, kind = 0, m, Ts(0, <<lo>>))

Point(a, key) ==
    LET k == SegLo(a) + R(Append(key, 1), SegHi(a) - SegLo(a) + 1)
        x == CASE R(key, 6) = 0 -> a.t[k]
               [] R(key, 6) = 1 -> IF R(Append(key, 2), 2) = 0 THEN Hi(a) ELSE Lo(a)
               [] R(key, 6) = 2 /\ ~a.p -> IF R(Append(key, 2), 2) = 0 THEN Lo(a) -- Pick(Append(key, 3), <<"1/8", "1">>)
                                           ELSE Hi(a) ++ Pick(Append(key, 3), <<"1/8", "1">>)
               [] OTHER -> RatRound(a.t[k] ++ (Pick(Append(key, 4), <<"1/4", "3/8", "1/2", "3/4">>) ** (a.t[k + 1] -- a.t[k])), 10)
    IN IF a.p /\ R(Append(key, 5), 3) = 0 THEN x ++ (Pick(Append(key, 6), <<-3, -1, 1, 2>>) ** Period(a)) ELSE x
\* outside an unclamped range a hint may name no segment that contains the
\* coordinate, so any segment of the range is a legitimate hint
Hint(a, x, key) ==
    IF R(key, 3) = 0 THEN Segment(a, Fold(a, x))
    ELSE SegLo(a) + R(Append(key, 1), SegHi(a) - SegLo(a) + 1)

Scen(s) ==
    LET inst == Inst[(s % Len(Inst)) + 1]
        r == s \div Len(Inst)
        D == inst.d
        O == inst.o
        Axes(v) == TLCEval([e \in 1 .. D |-> TLCEval(Ax(s, r, D, O, e, v))])
        Comp(v, axes) == [c \in 1 .. inst.nc |-> [q \in 1 .. DataSize(axes) |-> R(<<s, 5, v, c, q % 20000>>, 19) - 9]]
        anyP == \E e \in 1 .. D : Kind(s, r, e) = 0
        How(v) == Pick(<<s, 6, v>>, IF anyP THEN <<"ctor", "ctor_ptr", "load">> ELSE <<"ctor", "ctor_np", "ctor_ptr", "load">>)
        B(f, v, axes, how) == [op |-> "B", f |-> f, how |-> how,
              ax |-> [e \in 1 .. D |-> [p |-> axes[e].p, m |-> axes[e].m, t |-> [i \in 1 .. Cardinality(DOMAIN axes[e].t) |-> axes[e].t[i - 1]]]],
              c |-> Comp(v, axes)]
        a1 == Axes(1)
        a2 == Axes(2)
        Qs(f, axes, z) == [op |-> "Q", f |-> f, q |->
            [j \in 1 .. inst.q |->
                LET x == [e \in 1 .. D |-> Point(axes[e], <<s, 7, z, j, e>>)]
                IN [k |-> Pick(<<s, 8, z, j>>, <<"v", "vh", "vh", "pre", "d", "dh", "dh">>), x |-> x,
                    h |-> [e \in 1 .. D |-> Hint(axes[e], x[e], <<s, 9, z, j, e>>)],
                    d |-> [e \in 1 .. D |-> IF R(<<s, 10, z, j>>, 8) = 0 THEN R(<<s, 11, z, j, e>>, O + 3) ELSE R(<<s, 11, z, j, e>>, O + 1)]]]]
        Info(f) == [op |-> "BInfo", f |-> f]
    IN [id |-> s, key |-> inst.key,
        ops |-> <<B(1, 1, a1, How(1)), Info(1), Qs(1, a1, 1), [op |-> "FCopy", f |-> 2, g |-> 1],
                  B(3, 2, a2, How(2))>>
                \o (IF R(<<s, 12>>, 2) = 0 THEN <<B(1, 2, a2, "reload")>> ELSE <<[op |-> Pick(<<s, 13>>, <<"FAssign", "FMoveAssign">>), f |-> 1, g |-> 3]>>)
                \o <<Info(1), Qs(1, a2, 2), Info(2), Qs(2, a1, 3), [op |-> "FMove", f |-> 4, g |-> 1], Info(4), Qs(4, a2, 4)>>]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Scen(From + k - 1)])
VARIABLE y
Init == y = 0 /\ SInit
Next == UNCHANGED <<y, tm, fn, px>>
=============================================================================
