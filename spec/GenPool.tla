------------------------------- MODULE GenPool -------------------------------
(***************************************************************************)
(* Programs for the pool: workers, clients, tasks submitting tasks.  Even  *)
(* numbered programs are small (for exhaustive schedules), odd ones larger,*)
(* with numbers of tasks around multiples of the batch size of the code.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]

Types == <<"i", "v", "u">>
Kinds == <<"r", "r", "x", "y", "X">>
\* n tasks; owner of a task: a client (0 .. c-1) or an earlier task (as -1 - task)
Prog(s) ==
    LET small == s % 2 = 0
        r == s \div 2
        nw == IF small THEN 1 + (r % 2) ELSE 1 + (r % 4)
        nc == IF small THEN 1 + ((r \div 2) % 2) ELSE 1 + ((r \div 4) % 3)
        n == IF small THEN (r \div 4) % 4 ELSE Pick(<<s, 1>>, <<4, 6, 15, 16, 17, 18, 31, 32, 33, 40, 50>>)
        owner == [t \in 0 .. n - 1 |->
                    IF t > 0 /\ R(<<s, 2, t>>, IF small THEN 3 ELSE 5) = 0 THEN -1 - R(<<s, 3, t>>, t) ELSE R(<<s, 4, t>>, nc)]
        kid(t) == SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA k : owner[k] = -1 - t)
        own(c) == SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA k : owner[k] = c)
        \* after each submission perhaps wait for some earlier task of one's own
        ops(c) == FlattenSeq([i \in 1 .. Len(own(c)) |->
                    <<[k |-> "s", t |-> own(c)[i]]>> \o
                    (IF R(<<s, 5, c, i>>, 3) = 0 THEN <<[k |-> "g", t |-> own(c)[i]]>> ELSE <<>>) \o
                    (IF R(<<s, 6, c, i>>, 5) = 0 THEN <<[k |-> "y", t |-> 0]>> ELSE <<>>)])
                  \o (IF c = 0 /\ R(<<s, 7>>, 3) = 0 THEN <<[k |-> "q", t |-> 0]>> ELSE <<>>)
    IN [id |-> s, type |-> Types[1 + (s % 3)], nw |-> nw, small |-> small,
        tasks |-> [k \in 1 .. n |-> [k |-> Pick(<<s, 8, k>>, Kinds), v |-> 10 * k + R(<<s, 9, k>>, 10), c |-> kid(k - 1)]],
        clients |-> [c \in 1 .. nc |-> ops(c - 1)]]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Prog(From + k - 1)])
VARIABLE y
Init == y = 0
Next == UNCHANGED y
=============================================================================
