------------------------------- MODULE GenMesh -------------------------------
(* Histories of mesh operations: shapes enumerated exhaustively up to a     *)
(* bound (one scenario per shape and round), operations chosen by a hash.   *)
EXTENDS MeshArray, Json, IOUtils
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
MaxN == atoi(IOEnv.MAXN)
Steps == atoi(IOEnv.STEPS)
Mix(a, b) == (((a % 30269) * 171 + (b % 30011) * 29 + 11) * 67 + ((a + b) % 97) * 7919) % 30269
RECURSIVE Hash(_, _, _)
Hash(key, i, acc) == IF i > Len(key) THEN Mix(Mix(acc, 77), 3) ELSE Hash(key, i + 1, Mix(acc, key[i] + 1))
R(key, lim) == Hash(key, 1, Mix(Seed % 30011, Seed \div 7 + 5)) % lim
Pick(key, seq) == seq[1 + R(key, Len(seq))]

\* scenario s -> dimension count and shape number
Shapes(D) == MaxN ^ D
Total == Shapes(1) + Shapes(2) + Shapes(3) + Shapes(4)
DimOf(k) == IF k < Shapes(1) THEN 1 ELSE IF k < Shapes(1) + Shapes(2) THEN 2
            ELSE IF k < Shapes(1) + Shapes(2) + Shapes(3) THEN 3 ELSE 4
Base(D) == CASE D = 1 -> 0 [] D = 2 -> Shapes(1) [] D = 3 -> Shapes(1) + Shapes(2) [] OTHER -> Shapes(1) + Shapes(2) + Shapes(3)
Shape(s, D, n) == [d \in 1 .. D |-> ((n \div (MaxN ^ (d - 1))) % MaxN) + 1]

RandIdx(key, dims) == [d \in 1 .. Len(dims) |-> R(Append(key, d), dims[d])]
Val(key) == R(key, 2000) - 1000
Vals(key, n) == [k \in 1 .. n |-> Val(key \o <<k>>)]

Op(s, k, dims, m) ==     \* k-th operation on mesh m of shape dims
    LET key == <<s, k>>
        kind == R(key, 12)
        d == R(Append(key, 1), Len(dims)) + 1
        i == RandIdx(Append(key, 2), dims)
    IN CASE kind \in {0, 1} -> [op |-> "Set", m |-> m, i |-> i, v |-> Val(Append(key, 3)), path |-> R(Append(key, 4), 2)]
         [] kind \in {2, 3, 4} -> [op |-> "SetLine", m |-> m, d |-> d - 1, i |-> i, vals |-> Vals(Append(key, 5), dims[d]), path |-> R(Append(key, 6), 8)]
         [] kind \in {5, 6} -> [op |-> "All", m |-> m, path |-> R(Append(key, 7), 7)]
         [] kind \in {7, 8, 9} -> [op |-> "Line", m |-> m, d |-> d - 1, i |-> i, path |-> R(Append(key, 8), 9)]
         [] kind = 10 -> [op |-> "Walk", m |-> m, d |-> d - 1, i |-> i, path |-> R(Append(key, 9), 2)]
         [] OTHER -> [op |-> "Map", m |-> m]

RECURSIVE Build(_, _, _, _)
\* meshes 1 (std allocator), 2 (aligned); dims: shapes of the meshes present
Build(s, k, dims, acc) ==
    IF k > Steps THEN acc
    ELSE LET r == R(<<s, k, 77>>, 14)
             m == Pick(<<s, k, 78>>, IF Len(dims[2]) = 0 THEN <<1>> ELSE <<1, 2>>)
         IN IF r = 0 THEN Build(s, k + 1, [dims EXCEPT ![2] = dims[1]], Append(acc, [op |-> "Copy", m |-> 2, s |-> 1, path |-> R(<<s, k, 79>>, 2)]))
            ELSE IF r = 1 /\ Len(dims[2]) > 0
            THEN Build(s, k + 1, [dims EXCEPT ![1] = dims[2]], Append(acc, [op |-> "Copy", m |-> 1, s |-> 2, path |-> R(<<s, k, 79>>, 2)]))
            ELSE IF r = 2
            THEN LET nd == [d \in 1 .. Len(dims[m]) |-> R(<<s, k, 80, d>>, MaxN) + 1]
                 IN Build(s, k + 1, [dims EXCEPT ![m] = nd], Append(acc, [op |-> "Resize", m |-> m, dims |-> nd]))
            ELSE IF r = 3
            THEN Build(s, k + 1, [dims EXCEPT ![m] = dims[m], ![3] = dims[m]],
                       acc \o <<[op |-> "Copy", m |-> 2 + m, s |-> m, path |-> 0], [op |-> "All", m |-> 2 + m, path |-> R(<<s, k, 81>>, 7)],
                                [op |-> "Move", m |-> m, s |-> 2 + m], [op |-> "All", m |-> m, path |-> R(<<s, k, 82>>, 7)]>>)
            ELSE Build(s, k + 1, dims, Append(acc, Op(s, k, dims[m], m)))

\* extents beyond 16, 31 and 32 bits, the number of elements within 62
Huge == <<1, 2, 3, 7, 255, 256, 1000, 46341, 65535, 65536, 65537, 70000, 1000003, 16777217, 2147483647>>
RECURSIVE HugeDims(_, _, _, _)
HugeDims(s, d, n, acc) ==
    IF d > n THEN acc
    ELSE LET a == Pick(<<s, 91, d>>, Huge)
             b == IF RatLt(RatMul(BigSizeFrom(acc, 1), a), "4611686018427387904") THEN a ELSE 1 + R(<<s, 92, d>>, 2)
         IN HugeDims(s, d + 1, n, Append(acc, b))
Far(key, n) == LET c == R(Append(key, 1), 4)
               IN IF c = 0 THEN 0 ELSE IF c = 1 THEN n - 1
                  ELSE (R(Append(key, 2), 30269) * 65536 + R(Append(key, 3), 30269)) % n
DimOp(s, t) ==
    LET n == R(<<s, 90, t>>, 5) + 1
        dims == HugeDims(s * 7 + t, 1, n, <<>>)
    IN [op |-> "Dim", m |-> n, how |-> R(<<s, 93, t>>, 4), dims |-> dims,
        at |-> [k \in 1 .. 6 |-> [d \in 1 .. n |-> Far(<<s, 94, t, k, d>>, dims[d])]]]

\* a shape outside of the enumeration: up to 5 dimensions, longer sides
Wide(s) ==
    LET D == 1 + R(<<s, 95>>, 5)
        top == <<200, 30, 9, 5, 4>>[D]
    IN [d \in 1 .. D |-> 1 + R(<<s, 96, d>>, top)]

Scen(s) ==
    LET wide == s >= Total /\ s % 4 = 3
        k0 == s % Total
        D == IF wide THEN Len(Wide(s)) ELSE DimOf(k0)
        dims == IF wide THEN Wide(s) ELSE Shape(s, D, k0 - Base(D))
        eq == \A d \in 1 .. D : dims[d] = dims[1]
        how == R(<<s, 5>>, IF D = 1 THEN 4 ELSE IF eq THEN 3 ELSE 2)
    IN [id |-> s, key |-> ToString(D) \o Pick(<<s, 97>>, IF D <= 3 THEN <<"d", "d", "i", "b">> ELSE <<"d">>),
        ops |-> Build(s, 1, <<dims, <<>>, <<>>, <<>>>>,
                  <<[op |-> "New", m |-> 1, dims |-> dims, how |-> IF D = 1 /\ how = 2 THEN 2 ELSE how, vals |-> Vals(<<s, 6>>, Size(dims))],
                    [op |-> "Map", m |-> 1], [op |-> "All", m |-> 1, path |-> R(<<s, 7>>, 7)]>>)
                \o [d \in 1 .. D |-> [op |-> "Walk", m |-> 1, d |-> d - 1, i |-> [e \in 1 .. D |-> 0], path |-> 0]]
                \o [t \in 1 .. 3 |-> DimOp(s, t)]]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1 .. To - From |-> Scen(From + k - 1)])
VARIABLE x
Init == x = 0 /\ MInit
Next == UNCHANGED <<x, ms>>
=============================================================================
