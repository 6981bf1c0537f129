------------------------------- MODULE GenBand -------------------------------
(* Scenarios for band matrices: every small size and bandwidth, matrices    *)
(* that factorise without pivoting.                                         *)
EXTENDS Band, Json, IOUtils
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
MaxN == atoi(IOEnv.MAXN)
MaxB == atoi(IOEnv.MAXB)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]

Combos == 2 * MaxN * (MaxB + 1) * (MaxB + 1)
Forms == <<"vec", "vecr", "inpl", "ptr", "it", "deq", "deqit", "line", "vec2", "cvec">>

Scen(s) ==
    LET c == s % Combos
        big == s >= Combos /\ R(<<s, 1>>, 3) = 0
        x == c % 2 = 1
        \* beyond the enumeration: long bands of any width
        wide == s >= Combos /\ s % 5 = 1
        p0 == IF wide THEN R(<<s, 19>>, 10) ELSE (c \div 2) % (MaxB + 1)
        q0 == IF wide THEN R(<<s, 20>>, 10) ELSE (c \div (2 * (MaxB + 1))) % (MaxB + 1)
        n0 == ((c \div (2 * (MaxB + 1) * (MaxB + 1))) % MaxN) + 1
        n1 == IF wide THEN 1 + R(<<s, 21>>, 24) ELSE IF big THEN n0 + R(<<s, 2>>, 12) ELSE n0
        lim == IF p0 > q0 THEN p0 + 1 ELSE q0 + 1
        n == IF x /\ n1 < lim THEN lim ELSE n1
        M0 == [n |-> n, p |-> p0, q |-> q0, x |-> x, a |-> <<>>]
        Val(i, j) == Stored(M0, i, j)
        dom == R(<<s, 3>>, 3) = 0
        Lel(i, k) == IF i = k THEN 1 ELSE IF k < i /\ Val(i, k) THEN Pick(<<s, 4, i, k>>, <<-2, -1, 0, 1, 1, 2>>) ELSE 0
        Uel(k, j) == IF k = j THEN Pick(<<s, 5, k>>, <<1, -1, 2, -2, 4>>)
                     ELSE IF k < j /\ Val(k, j) THEN Pick(<<s, 6, k, j>>, <<-3, -1, 0, 1, 2>>) ELSE 0
        RECURSIVE Dot(_, _, _)
        Dot(i, j, k) == IF k < 0 THEN 0 ELSE Lel(i, k) * Uel(k, j) + Dot(i, j, k - 1)
        El(k) == LET i == (k - 1) \div n
                     j == (k - 1) % n
                 IN IF dom THEN (IF i = j THEN RatOf(Pick(<<s, 7, i>>, <<1, -1>>) * (8 * n + 1 + R(<<s, 8, i>>, 9)), 4) ELSE RatOf(R(<<s, 9, i, j>>, 17) - 8, 8))
                    ELSE RatNorm(Dot(i, j, IF i < j THEN i ELSE j))
        ss == StoredSeq(M0)
        vals == TLCEval([k \in 1 .. Len(ss) |-> El(ss[k])])
        fill2 == IF ss = <<>> THEN <<>> ELSE
                 LET k == ss[1 + R(<<s, 11>>, Len(ss))]
                 IN <<[op |-> "MSet", m |-> 2, i |-> (k - 1) \div n, j |-> (k - 1) % n, v |-> RatOf(R(<<s, 12>>, 99) - 50, 2)]>>
        Vec(t) == [k \in 1 .. n |-> RatOf(R(<<s, 13, t, k>>, 41) - 20, 4)]
        Solve(l, t) == [op |-> "Solve", l |-> l, form |-> Pick(<<s, 14, t>>, Forms), b |-> Vec(100 + t), b2 |-> Vec(200 + t)]
        how == Pick(<<s, 15>>, <<"ctor_l", "ctor_r", "comp_l", "comp_r", "ctor_c", "comp_c">>)
        gone == how \in {"ctor_r", "comp_r"}
        growth == IF dom THEN 4 * n + 8 ELSE 8 * ((IF p0 < q0 THEN p0 ELSE q0) + 2)
    IN [id |-> s, key |-> Pick(<<s, 16>>, <<"std", "aligned", "std", "aligned", "float">>),
        ops |-> <<[op |-> "MNew", m |-> 1, n |-> n, p |-> p0, q |-> q0, x |-> x],
                  [op |-> "MFill", m |-> 1, vals |-> vals, order |-> R(<<s, 17>>, 3)],
                  [op |-> "MDump", m |-> 1, path |-> R(<<s, 18>>, 2)],
                  [op |-> "MMul", m |-> 1, x |-> Vec(1)],
                  [op |-> "MCopy", m |-> 2, s |-> 1, path |-> 0]>>
                \o fill2 \o
                <<[op |-> "MDump", m |-> 2, path |-> 0], [op |-> "MDump", m |-> 1, path |-> 1],
                  [op |-> "MMul", m |-> 2, x |-> Vec(2)],
                  [op |-> "LU", l |-> 1, m |-> 1, how |-> how, growth |-> growth]>>
                \o (IF gone THEN <<>> ELSE <<[op |-> "MDump", m |-> 1, path |-> 1], [op |-> "MMul", m |-> 1, x |-> Vec(3)]>>)
                \o <<Solve(1, 1), Solve(1, 2), Solve(1, 3),
                     [op |-> "LUCopy", l |-> 2, s |-> 1], Solve(2, 4), Solve(1, 5),
                     [op |-> "LUMove", l |-> 3, s |-> 2], Solve(3, 6), Solve(1, 7)>>
                \o (IF gone THEN <<>> ELSE <<[op |-> "MDump", m |-> 1, path |-> 0], [op |-> "MMove", m |-> 3, s |-> 1],
                                            [op |-> "MDump", m |-> 3, path |-> 1], [op |-> "MMul", m |-> 3, x |-> Vec(4)]>>)]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Scen(From + k - 1)])
VARIABLE y
Init == y = 0 /\ BInit
Next == UNCHANGED <<y, mt, lu>>
=============================================================================
