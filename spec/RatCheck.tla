------------------------------ MODULE RatCheck ------------------------------
(* Self test of the override java/Rat.java, by assumptions TLC evaluates.  *)
EXTENDS Rat, TLC
S == -7 .. 7
P == 1 .. 5
Sample == { RatOf(n, d) : n \in {-5, -1, 0, 3, 7}, d \in {1, 2, 3, 7} }
          \cup { "123456789012345678901234567890/7", "-9007199254740991:-1074", "1:80" }
CN(a) == RatNorm(a)
ASSUME \A a, b \in S : /\ RatAdd(a, b) = RatNorm(a + b)
                       /\ RatSub(a, b) = RatNorm(a - b)
                       /\ RatMul(a, b) = RatNorm(a * b)
                       /\ RatLeq(a, b) = (a <= b)
                       /\ RatLt(a, b) = (a < b)
                       /\ RatEq(a, b) = (a = b)
                       /\ b # 0 => RatMul(RatDiv(a, b), b) = RatNorm(a)
ASSUME \A a \in S, d \in P : /\ RatFloor(RatOf(a, d)) = RatNorm(a \div d)
                             /\ RatToInt(RatFloor(RatOf(a, d))) = a \div d
                             /\ RatMul(RatOf(a, d), d) = RatNorm(a)
                             /\ RatAbs(RatOf(a, d)) = RatOf(IF a < 0 THEN -a ELSE a, d)
ASSUME \A a, b, c \in Sample :
    /\ RatAdd(a, b) = RatAdd(b, a)
    /\ RatMul(a, b) = RatMul(b, a)
    /\ RatAdd(RatAdd(a, b), c) = RatAdd(a, RatAdd(b, c))
    /\ RatMul(RatMul(a, b), c) = RatMul(a, RatMul(b, c))
    /\ RatMul(a, RatAdd(b, c)) = RatAdd(RatMul(a, b), RatMul(a, c))
    /\ RatSub(RatAdd(a, b), b) = RatNorm(a)
    /\ ~RatEq(b, 0) => RatMul(RatDiv(a, b), b) = RatNorm(a)
    /\ RatLeq(a, b) => RatLeq(RatAdd(a, c), RatAdd(b, c))
    /\ (RatLeq(a, b) /\ RatLeq(b, a)) <=> RatNorm(a) = RatNorm(b)
ASSUME /\ RatNorm("3:-1") = "3/2" /\ RatNorm("6/4") = "3/2" /\ RatNorm("-3:2") = "-12"
       /\ RatIsNum("nan") = FALSE /\ RatIsNum("-inf") = FALSE /\ RatIsNum("-5:-3") = TRUE
       /\ RatRound("1/3", 4) = "5/16" /\ RatRound("-1/3", 4) = "-5/16"
ASSUME PrintT("RatCheck ok")
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
