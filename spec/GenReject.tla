------------------------------ MODULE GenReject ------------------------------
(***************************************************************************)
(* Attempts with inconsistent (and neighbouring consistent) input.  Each   *)
(* scenario of kind "x" takes one axis of one mesh and tries every way and *)
(* place of breaking it; mesh and matrix accesses are exhaustive.          *)
(***************************************************************************)
EXTENDS Reject, Json, IOUtils, SequencesExt
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
Inst == JsonDeserialize(IOEnv.INST)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]

Even(k) == k % 2 = 0
MinNodes(o, p) == IF p THEN (IF Even(o) THEN o + 2 ELSE o + 1) ELSE o + 1
RECURSIVE Nodes(_, _, _, _)
Nodes(s, e, n, acc) == IF Len(acc) = n THEN acc
                       ELSE Nodes(s, e, n, Append(acc, acc[Len(acc)] ++ Pick(<<s, 5, e, Len(acc)>>, <<"1/2", "3/4", "1", "5/4">>)))
Axis(s, O, e, r) ==
    LET p == (r \div e) % 2 = 0
        n0 == MinNodes(O, p) + R(<<s, 3, e>>, 3)
        n == IF n0 < 2 THEN 2 ELSE n0
    IN [p |-> p, u |-> FALSE, n |-> n, x |-> Nodes(s, e, n, <<"-1/2">>)]
\* an axis that is not under test may be given by a range
Other(s, O, e, r) == LET a == Axis(s, O, e, r) IN IF R(<<s, 4, e>>, 2) = 0 THEN a ELSE [a EXCEPT !.u = TRUE, !.x = <<"-1/2", "5/2">>]

\* ways of breaking (or not breaking: 0) axis a at place i
Broken(a, b, i) ==
    LET x == a.x
        n == Len(x)
    IN CASE b = 0 -> a
         [] b = 1 -> [a EXCEPT !.x = [x EXCEPT ![i] = x[i + 1], ![i + 1] = x[i]]]     \* out of order
         [] b = 2 -> [a EXCEPT !.x = [x EXCEPT ![i + 1] = x[i]]]                      \* repeated
         [] b = 3 -> [a EXCEPT !.x = [x EXCEPT ![i] = "nan"]]
         [] b = 4 -> [a EXCEPT !.x = SubSeq(x, 1, n - 1)]                             \* too few
         [] b = 5 -> [a EXCEPT !.x = Append(x, x[n] ++ 1)]                            \* too many
         [] b = 6 -> [a EXCEPT !.x = SubSeq(x, 1, i)]
         [] b = 7 -> [a EXCEPT !.x = x \o [k \in 1 .. i + 1 |-> x[n] ++ (k + 1)]]
         [] b = 8 -> [a EXCEPT !.n = a.n + 1]                                          \* too many data
         [] b = 9 -> [a EXCEPT !.x = [x EXCEPT ![i + 1] = x[i] -- "1:-50"]]            \* barely decreasing
         [] b = 10 -> [a EXCEPT !.x = [k \in 1 .. n |-> x[n + 1 - k]]]                 \* decreasing
         [] OTHER -> [a EXCEPT !.x = [x EXCEPT ![i] = "-3/4"]]                         \* below the first
Ways == {<<b, i>> : b \in 0 .. 11, i \in 1 .. 12}
Sensible(a, b, i) == CASE b \in {0, 4, 5, 8, 10} -> i = 1
                      [] b \in {1, 2, 9} -> i <= Len(a.x) - 1
                      [] b = 11 -> i >= 2 /\ i <= Len(a.x)
                      [] b = 6 -> i <= Len(a.x) - 2
                      [] b = 7 -> i <= 3
                      [] OTHER -> i <= Len(a.x)
Hows(D, b) == (IF b = 3 THEN <<"T", "T0", "direct", "direct0", "direct_ptr", "direct_list", "templ_list">>
            ELSE <<"T", "T0", "direct", "direct0", "direct_ptr", "direct_list", "templ_list", "direct_stream", "templ_stream">>)
           \o (IF D > 1 THEN <<>> ELSE <<"f1_iter", "f1_list", "f1_ptr", "w1", "wt1", "tb">>)

Xs(s, inst, r) ==
    LET D == inst.d
        O == inst.o
        e == 1 + (r % D)
        axes == [k \in 1 .. D |-> IF k = e THEN Axis(s, O, k, r \div D) ELSE Other(s, O, k, r \div D)]
        ways == SetToSeq({w \in Ways : Sensible(axes[e], w[1], w[2])})
        At(w) == [op |-> "X", how |-> Pick(<<s, 6, w[1], w[2]>>, Hows(D, w[1])), ax |-> [axes EXCEPT ![e] = Broken(axes[e], w[1], w[2])]]
    IN [k \in 1 .. Len(ways) |-> At(ways[k])]

RECURSIVE ProdM(_, _)
ProdM(ax, d) == IF d > Len(ax) THEN 1 ELSE ax[d].m * ProdM(ax, d + 1)

\* control points against knots
Ks(s, inst, r) ==
    LET D == inst.d
        O == inst.o
        P(e) == ((r \div e) + e) % 2 = 0
        M(e) == (IF P(e) THEN 1 ELSE O + 1) + R(<<s, 7, e>>, 3)
        Ax(e, dm, dk) == LET K == KnotCount(O, P(e), M(e)) + dk
                         IN [p |-> P(e), m |-> M(e) + dm, t |-> [i \in 1 .. (IF K < 0 THEN 0 ELSE K) |-> i - 1]]
        ways == SetToSeq({<<e, dm, dk>> \in (1 .. D) \X (-2 .. 3) \X (-6 .. 3) : M(e) + dm >= 1 /\ (dm = 0 \/ dk \in {-1, 0, 1}) /\ KnotCount(O, P(e), M(e)) + dk >= 0})
        anyP == \E e \in 1 .. D : P(e)
        One(w) == LET ax == [e \in 1 .. D |-> IF e = w[1] THEN Ax(e, w[2], w[3]) ELSE Ax(e, 0, 0)]
                  IN [op |-> "B", f |-> 1, how |-> Pick(<<s, 8, w[1], w[2] + 5, w[3] + 9>>, IF anyP THEN <<"ctor", "ctor_ptr">> ELSE <<"ctor", "ctor_np", "ctor_ptr">>),
                      ax |-> ax, c |-> <<[q \in 1 .. ProdM(ax, 1) |-> q % 5]>>]
    IN [k \in 1 .. Len(ways) |-> One(ways[k])]

\* every index from one below to one above the bounds, and far away
MTs(s, D, r) ==
    LET dims == [d \in 1 .. D |-> 1 + ((r \div (3 ^ (d - 1))) % 3)]
        vals(d) == (-1 .. dims[d] + 1)
        RECURSIVE Tup(_)
        Tup(d) == IF d > D THEN {<<>>} ELSE {<<v>> \o t : v \in vals(d), t \in Tup(d + 1)}
        base == SetToSeq(Tup(1))
        far == [k \in 1 .. D |-> [d \in 1 .. D |-> IF d = k THEN Pick(<<s, 9, k>>, <<2147483647, -2147483647, 1000000>>) ELSE 0]]
        all == base \o far
        Q(k, path) == [path |-> path, d |-> k % D, i |-> all[k]]
        \* line access only constrains the other indices, so the index along the line is kept valid there
        Fit(q) == IF q.path \in {4, 5} /\ (q.i[q.d + 1] < 0 \/ q.i[q.d + 1] >= dims[q.d + 1]) THEN [q EXCEPT !.i[q.d + 1] = 0] ELSE q
    IN <<[op |-> "MT", dims |-> dims, q |-> FlattenSeq([k \in 1 .. Len(all) |->
            IF D <= 2 THEN [p \in 1 .. 7 |-> Fit(Q(k, p - 1))] ELSE <<Fit(Q(k, R(<<s, 10, k>>, 7)))>>])]>>

\* all elements of all small matrices
BTs(n) == SetToSeq({[op |-> "BT", n |-> n, p |-> p, q |-> q, x |-> x] : p \in 0 .. 4, q \in 0 .. 4, x \in {0, 1}})
BTok(o) == o.x = 0 \/ (o.p < o.n /\ o.q < o.n)

Scen(s) ==
    LET inst == Inst[(s % Len(Inst)) + 1]
        r == s \div Len(Inst)
    IN [id |-> s, key |-> inst.key,
        ops |-> CASE inst.k = "x" -> Xs(s, inst, r)
                  [] inst.k = "b" -> Ks(s, inst, r)
                  [] inst.k = "m" -> MTs(s, inst.d, r)
                  [] OTHER -> SelectSeq(BTs(1 + (r % 7)), BTok)]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Scen(From + k - 1)])
VARIABLE y
Init == y = 0
Next == UNCHANGED y
=============================================================================
