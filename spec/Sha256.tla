------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* The concrete hash used when the specification judges recorded           *)
(* executions.  Byte strings are lower-case hexadecimal strings.  The      *)
(* bodies below only type the operators: TLC evaluates them through the    *)
(* module override java/Sha256.java (SHA-256 from java.security, i.e. an   *)
(* implementation independent of the crate under test).                    *)
(***************************************************************************)
EXTENDS Sequences, Naturals

\* SHA-256 of the concatenation of the byte strings in `parts`.
Sha(parts) == CHOOSE h \in STRING : TRUE

\* The bits of a hexadecimal string, most significant bit first.
HexBits(h) == CHOOSE b \in Seq({0, 1}) : TRUE

\* The inverse of HexBits.
BitsHex(b) == CHOOSE h \in STRING : HexBits(h) = b

\* Bit i of a hexadecimal string, 0 being the most significant one.
BitAt(h, i) == HexBits(h)[i + 1]

\* The greatest number of leading bits that h has in common with one of the
\* (equally long) strings in the non-empty set S.
MaxCommon(h, S) ==
  LET c(a) == CHOOSE n \in 0 .. Len(HexBits(h)) :
                /\ \A x \in 1 .. n : HexBits(h)[x] = HexBits(a)[x]
                /\ n = Len(HexBits(h)) \/ HexBits(h)[n + 1] # HexBits(a)[n + 1]
  IN  CHOOSE n \in {c(a) : a \in S} : \A a \in S : c(a) <= n
=============================================================================
