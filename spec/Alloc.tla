-------------------------------- MODULE Alloc --------------------------------
(* Memory seen through the library's allocators: a set of live blocks, each *)
(* with an address range and the values of its elements; the stack          *)
(* allocator as a LIFO region; the small compile-time helpers.              *)
(* Addresses are pairs <<hi, lo>>, value hi * Word + lo.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Word == 16777216
VARIABLES blocks,  \* id -> [hi, lo, bytes, vals]      live aligned blocks
          vecs,    \* id -> sequence of values         containers on an aligned allocator
          stk,     \* [cap, live]: live = sequence of block lengths, oldest first
          val      \* id -> sequence of values         blocks of the stack region
avars == <<blocks, vecs, stk, val>>
AInit == blocks = <<>> /\ vecs = <<>> /\ stk = [cap |-> 0, live |-> <<>>] /\ val = <<>>

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]

\* address arithmetic
Plus(a, n) == <<a[1] + (a[2] + n) \div Word, (a[2] + n) % Word>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Aligned(a, al) == a[2] % al = 0              \* al divides Word
\* a block of no bytes shares no byte with anything
Apart(a, n, b, m) == n = 0 \/ m = 0 \/ Leq(Plus(a, n), b) \/ Leq(Plus(b, m), a)

Fits(a, n, al) == /\ Aligned(a, al)
                  /\ \A k \in DOMAIN blocks : Apart(a, n, blocks[k].at, blocks[k].bytes)
Take(k, a, n, vals) == /\ k \notin DOMAIN blocks
                       /\ blocks' = Put(blocks, k, [at |-> a, bytes |-> n, vals |-> vals])
                       /\ UNCHANGED <<vecs, stk, val>>
Poke(k, i, v) == /\ k \in DOMAIN blocks
                 /\ blocks' = [blocks EXCEPT ![k].vals[i] = v]
                 /\ UNCHANGED <<vecs, stk, val>>
Give(k) == k \in DOMAIN blocks /\ blocks' = Drop(blocks, k) /\ UNCHANGED <<vecs, stk, val>>

\* containers: sequences
VSet(k, s) == vecs' = Put(vecs, k, s) /\ UNCHANGED <<blocks, stk, val>>
Resized(s, n, v) == [i \in 1 .. n |-> IF i <= Len(s) THEN s[i] ELSE v]

\* the stack region
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Top == Sum(stk.live)
Room(n) == n <= stk.cap - Top
SNew(cap) == stk' = [cap |-> cap, live |-> <<>>] /\ val' = <<>> /\ UNCHANGED <<blocks, vecs>>
SPush(vals) == /\ Room(Len(vals))
               /\ stk' = [stk EXCEPT !.live = Append(@, Len(vals))]
               /\ val' = Append(val, vals)
               /\ UNCHANGED <<blocks, vecs>>
SPop == /\ stk.live # <<>>
        /\ stk' = [stk EXCEPT !.live = SubSeq(@, 1, Len(@) - 1)]
        /\ val' = SubSeq(val, 1, Len(val) - 1)
        /\ UNCHANGED <<blocks, vecs>>

\* compile-time helpers
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Iota(n) == [i \in 1 .. n |-> i - 1]
\* type name -> has iterators, has const subscript
Traits == [vector |-> <<TRUE, TRUE>>, list |-> <<TRUE, FALSE>>, deque |-> <<TRUE, TRUE>>, array |-> <<TRUE, TRUE>>,
           map |-> <<TRUE, FALSE>>, set |-> <<TRUE, FALSE>>, string |-> <<TRUE, TRUE>>, double |-> <<FALSE, FALSE>>,
           mesh |-> <<TRUE, FALSE>>, pointer |-> <<FALSE, FALSE>>, pair |-> <<FALSE, FALSE>>, init |-> <<TRUE, FALSE>>,
           unique |-> <<FALSE, TRUE>>, plain |-> <<FALSE, FALSE>>, badends |-> <<FALSE, FALSE>>, complex |-> <<FALSE, FALSE>>]
=============================================================================
