------------------------------ MODULE GenAlloc ------------------------------
(* Histories of allocations, container operations and stack-allocator use.  *)
EXTENDS Alloc, Json, IOUtils
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
Steps == atoi(IOEnv.STEPS)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]
Val(key) == R(key, 200) - 100
Vals(key, n) == [k \in 1 .. n |-> Val(key \o <<k>>)]

\* alignment (n: pointer, s: 16, a: 32, z: 64) and element (bytes; 9: 8 bytes on the default-initialising adaptor)
Keys == <<"n1", "n8", "n9", "n12", "n24", "s1", "s8", "s9", "s12", "s24", "a1", "a8", "a9", "a12", "a24", "z1", "z8", "z9", "z12", "z24">>
Slots == 6
Count(key) == Pick(key, <<0, 1, 2, 3, 5, 7, 8, 9, 16, 31, 33, 64, 100, 257>>)

\* live: slots in use with their lengths (-1: free); vec: container slots present with length
RECURSIVE Build(_, _, _, _, _)
Build(s, k, live, st, acc) ==
    IF k > Steps THEN acc
    ELSE LET r == R(<<s, k, 1>>, 16)
             q == R(<<s, k, 2>>, Slots) + 1
             n == Count(<<s, k, 3>>)
         IN IF r \in 0 .. 4
            THEN IF live[q] < 0
                 THEN Build(s, k + 1, [live EXCEPT ![q] = n], st,
                            Append(acc, [op |-> "Alloc", b |-> q, n |-> n, vals |-> Vals(<<s, k, 4>>, n), path |-> R(<<s, k, 5>>, 4)]))
                 ELSE IF r < 3 THEN Build(s, k + 1, [live EXCEPT ![q] = -1], st, Append(acc, [op |-> "Free", b |-> q]))
                 ELSE IF live[q] > 0
                 THEN Build(s, k + 1, live, st, Append(acc, [op |-> "Poke", b |-> q, i |-> R(<<s, k, 6>>, live[q]) + 1, v |-> Val(<<s, k, 7>>)]))
                 ELSE Build(s, k + 1, live, st, acc)
            ELSE IF r = 5 THEN Build(s, k + 1, live, st, Append(acc, [op |-> "Huge", path |-> R(<<s, k, 5>>, 3)]))
            ELSE IF r \in 6 .. 11
            THEN LET v == R(<<s, k, 8>>, 3) + 1
                     w == R(<<s, k, 9>>, 3) + 1
                 IN Build(s, k + 1, live, st,
                      Append(acc, CASE r \in {6, 7} -> [op |-> "VNew", v |-> v, vals |-> Vals(<<s, k, 4>>, n % 40)]
                                    [] r = 8 -> [op |-> "VResize", v |-> v, n |-> n % 50, x |-> Val(<<s, k, 7>>)]
                                    [] r = 9 -> [op |-> "VPush", v |-> v, x |-> Val(<<s, k, 7>>)]
                                    [] r = 10 -> [op |-> "VCopy", v |-> v, s |-> w, path |-> R(<<s, k, 5>>, 4)]
                                    [] OTHER -> [op |-> "VSwap", v |-> v, s |-> w]))
            ELSE IF r \in 12 .. 14
            THEN LET m == R(<<s, k, 10>>, 8) IN
                 IF m < 5 \/ st = <<>>
                 THEN LET len == IF m = 0 THEN 16 - Sum(st) ELSE IF m = 1 THEN 17 - Sum(st) ELSE R(<<s, k, 11>>, 9)
                      IN Build(s, k + 1, live, IF len <= 16 - Sum(st) THEN Append(st, len) ELSE st,
                               Append(acc, [op |-> "SPush", vals |-> Vals(<<s, k, 4>>, len)]))
                 ELSE Build(s, k + 1, live, SubSeq(st, 1, Len(st) - 1), Append(acc, [op |-> "SPop"]))
            ELSE Build(s, k + 1, live, st, Append(acc, [op |-> "Construct", vals |-> Vals(<<s, k, 4>>, 4), path |-> R(<<s, k, 5>>, 3)]))

Scen(s) == [id |-> s, key |-> Keys[(s % Len(Keys)) + 1],
            ops |-> (IF s < Len(Keys) THEN <<[op |-> "Static"]>> ELSE <<>>) \o
                    <<[op |-> "Dispatch", n |-> s % 6, vals |-> Vals(<<s, 12>>, s % 6)],
                      [op |-> "Range", vals |-> Vals(<<s, 13>>, R(<<s, 14>>, 6))]>>
                     \o Build(s, 1, [q \in 1 .. Slots |-> -1], <<>>, <<>>)]
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Scen(From + k - 1)])
VARIABLE x
Init == x = 0 /\ AInit
Next == UNCHANGED <<x, blocks, vecs, stk, val>>
=============================================================================
