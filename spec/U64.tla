-------------------------------- MODULE U64 ---------------------------------
(***************************************************************************)
(* Unsigned 64-bit numbers, written as 16 lower-case hexadecimal digits    *)
(* (TLC's integers are 32 bits wide).  Evaluated by the module override    *)
(* java/U64.java (java.math.BigInteger); the bodies only type them.        *)
(* A result that does not fit is the string "overflow", and so is anything *)
(* computed from it by + - and shifts.                                     *)
(***************************************************************************)
EXTENDS Naturals

UOf(n)       == CHOOSE u \in STRING : TRUE     \* from a small natural number
UAdd(a, b)   == CHOOSE u \in STRING : TRUE
USub(a, b)   == CHOOSE u \in STRING : TRUE     \* "overflow" when a < b
UShl(a, k)   == CHOOSE u \in STRING : TRUE
UShr(a, k)   == CHOOSE u \in STRING : TRUE
ULt(a, b)    == CHOOSE x \in BOOLEAN : TRUE
UBit(a, k)   == CHOOSE x \in {0, 1} : TRUE     \* bit k, least significant is 0
\* The number of bits: 0 for zero, otherwise 1 + the index of the highest set bit.
ULen(a)      == CHOOSE n \in 0 .. 64 : TRUE

UZero == UOf(0)
UOne  == UOf(1)
ULe(a, b) == ~ULt(b, a)
\* 2^k
UPow(k) == UShl(UOne, k)
\* Smallest c with 2^c >= a (a >= 1).
UCeilLog(a) == ULen(USub(a, UOne))
UIsPow2(a) == a # UZero /\ a = UPow(ULen(a) - 1)
\* The number of trailing ones.
RECURSIVE UTrailingOnes(_)
UTrailingOnes(a) == IF UBit(a, 0) = 0 THEN 0 ELSE 1 + UTrailingOnes(UShr(a, 1))
=============================================================================
