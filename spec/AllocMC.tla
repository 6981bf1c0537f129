------------------------------- MODULE AllocMC -------------------------------
(* Alloc on a tiny address space: every placement of blocks that the        *)
(* specification permits keeps live bytes disjoint and aligned, and what is  *)
(* stored in a block is not changed by any step that does not write it.      *)
EXTENDS Alloc, IOUtils
Mem == 12
Al == 4
MaxBlocks == 3
Cap == IF "CAP" \in DOMAIN IOEnv THEN atoi(IOEnv.CAP) ELSE 5
VARIABLE bytes      \* the bytes of memory: owner of each, 0 if none
mvars == <<blocks, vecs, stk, val, bytes>>
Own(a, n) == {x \in 0 .. Mem - 1 : a <= x /\ x < a + n}
Init == AInit /\ bytes = [x \in 0 .. Mem - 1 |-> 0]
Next ==
    \/ \E k \in 1 .. MaxBlocks, a \in 0 .. Mem - 1, n \in 0 .. 4 :
         /\ a + n <= Mem /\ stk.cap = 0           \* the two kinds of memory do not interact
         /\ Fits(<<0, a>>, n, Al)
         /\ Take(k, <<0, a>>, n, <<k>>)
         /\ bytes' = [x \in DOMAIN bytes |-> IF x \in Own(a, n) THEN k ELSE bytes[x]]
    \/ \E k \in DOMAIN blocks : /\ Give(k)
                                /\ bytes' = [x \in DOMAIN bytes |-> IF bytes[x] = k THEN 0 ELSE bytes[x]]
    \/ /\ stk.cap = 0 /\ blocks = <<>> /\ SNew(Cap) /\ UNCHANGED bytes
    \/ \E n \in 0 .. 3 : stk.cap > 0 /\ Len(stk.live) < 4 /\ SPush([i \in 1 .. n |-> Len(stk.live)]) /\ UNCHANGED bytes
    \/ SPop /\ UNCHANGED bytes
\* every live block still owns all its bytes, i.e. no two overlap
Whole == \A k \in DOMAIN blocks : \A x \in Own(blocks[k].at[2], blocks[k].bytes) : bytes[x] = k
AlignInv == \A k \in DOMAIN blocks : blocks[k].at[2] % Al = 0
Within == Top <= stk.cap
SameLen == Len(val) = Len(stk.live) /\ \A i \in 1 .. Len(val) : Len(val[i]) = stk.live[i]
\* address arithmetic with carry
ArithInv == \A h \in 0 .. 1, lo \in {0, 5, Word - 1, Word - 8}, n \in {0, 1, 8, 9} :
    LET p == Plus(<<h, lo>>, n) IN p[2] \in 0 .. Word - 1 /\ Leq(<<h, lo>>, p) /\ (p[1] - h) * Word + p[2] = lo + n
Untouched == [][\A i \in DOMAIN val : i \in DOMAIN val' => val'[i] = val[i]]_mvars
Spec == Init /\ [][Next]_mvars
=============================================================================
