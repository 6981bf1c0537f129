-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* TLC's integers have 32 bits, far too few to hold the significand of one *)
(* double.  A rational is therefore a numeral: a TLA+ string "n" or "n/d"  *)
(* (n, d decimal, gcd(n,d) = 1, d > 1), so that equal rationals are equal  *)
(* TLA+ values.  Operators also accept TLA+ integers, non-canonical        *)
(* fractions, and "m:e" for m * 2^e, the exact form in which recorders log *)
(* floating point numbers.                                                 *)
(*                                                                         *)
(* The operators are evaluated by the module override java/Rat.java; the   *)
(* definitions below only give their meaning on TLA+ integers.  RatCheck   *)
(* tests the override against TLC's integer arithmetic and the field laws. *)
(***************************************************************************)
EXTENDS Integers

RatIsNum(a)   == a \in Int                      \* is a numeral
RatNorm(a)    == a                              \* canonical numeral
RatOf(n, d)   == n \div d                       \* n/d of two TLA+ integers
RatAdd(a, b)  == a + b
RatSub(a, b)  == a - b
RatMul(a, b)  == a * b
RatDiv(a, b)  == a \div b
RatAbs(a)     == IF a < 0 THEN -a ELSE a
RatLeq(a, b)  == a <= b
RatLt(a, b)   == a < b
RatEq(a, b)   == a = b
RatFloor(a)   == a                              \* greatest integer below
RatToInt(a)   == a                              \* integral numeral to TLA+ integer
RatRound(a,k) == a                              \* nearest multiple of 2^-k

a ++ b == RatAdd(a, b)
a -- b == RatSub(a, b)
a ** b == RatMul(a, b)
a // b == RatDiv(a, b)

RatMax(a, b)  == IF RatLeq(a, b) THEN b ELSE a
RatMin(a, b)  == IF RatLeq(a, b) THEN a ELSE b
RatZero == "0"
RatOne  == "1"
RatHalf == "1/2"

\* Sum of F(i) for i in a..b
RECURSIVE RatSumFrom(_, _, _, _)
RatSumFrom(F(_), a, b, acc) ==
    IF a > b THEN acc ELSE RatSumFrom(F, a + 1, b, RatAdd(acc, F(a)))
RatSum(F(_), a, b) == RatSumFrom(F, a, b, "0")

\* a is within err of b
RatNear(a, b, err) == RatLeq(RatAbs(RatSub(a, b)), err)
=============================================================================
