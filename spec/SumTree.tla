------------------------------- MODULE SumTree ------------------------------
(***************************************************************************)
(* What a binary Merkle sum tree over a list of <<fee, leaf digest>> pairs *)
(* IS.  Fees and their addition are parameters: naturals when the design   *)
(* is model checked, 64-bit numbers when executions are judged.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS FZero, FAdd(_, _),
          FEmptyH,
          FLeafH(_, _),          \* fee, data
          FNodeH(_, _, _, _)     \* left fee, left digest, right fee, right digest

RECURSIVE FSplitFrom(_, _)
FSplitFrom(p, n) == IF 2 * p >= n THEN p ELSE FSplitFrom(2 * p, n)
FSplit(n) == FSplitFrom(1, n)

\* <<fee total, digest>> of the leaves lo+1 .. lo+n.
RECURSIVE FRange(_, _, _)
FRange(L, lo, n) ==
  IF n = 0 THEN <<FZero, FEmptyH>>
  ELSE IF n = 1 THEN L[lo + 1]
  ELSE LET k == FSplit(n)
           a == FRange(L, lo, k)
           b == FRange(L, lo + k, n - k)
       IN  <<FAdd(a[1], b[1]), FNodeH(a[1], a[2], b[1], b[2])>>

FRoot(L) == FRange(L, 0, Len(L))

\* The same root from the complete subtrees, <<leaves, fee, digest>>, largest first.
FPow(n) == IF FSplit(n) * 2 = n THEN n ELSE FSplit(n)
RECURSIVE FPeaksFrom(_, _, _)
FPeaksFrom(L, lo, n) ==
  IF n = 0 THEN <<>>
  ELSE LET p == FPow(n)
       IN <<<<p>> \o FRange(L, lo, p)>> \o FPeaksFrom(L, lo + p, n - p)
FPeaks(L) == FPeaksFrom(L, 0, Len(L))
FJoin(a, b) == <<a[1] + b[1], FAdd(a[2], b[2]), FNodeH(a[2], a[3], b[2], b[3])>>
RECURSIVE FPeakPush(_, _)
FPeakPush(pk, it) ==
  LET k == Len(pk)
  IN IF k > 0 /\ pk[k][1] = it[1] THEN FPeakPush(SubSeq(pk, 1, k - 1), FJoin(pk[k], it))
     ELSE Append(pk, it)
RECURSIVE FPeakJoin(_, _)
FPeakJoin(pk, acc) ==
  IF pk = <<>> THEN <<acc[2], acc[3]>>
  ELSE FPeakJoin(SubSeq(pk, 1, Len(pk) - 1), FJoin(pk[Len(pk)], acc))
FPeakRoot(pk) ==
  IF pk = <<>> THEN <<FZero, FEmptyH>> ELSE FPeakJoin(SubSeq(pk, 1, Len(pk) - 1), pk[Len(pk)])

\* The nodes of that tree: <<digest, fee, is leaf, left digest, right digest>>
\* with the empty string / FEmptyH in place of a leaf's children.
RECURSIVE FNodes(_, _, _)
FNodes(L, lo, n) ==
  IF n = 0 THEN {}
  ELSE IF n = 1 THEN {<<L[lo + 1][2], L[lo + 1][1], TRUE, FEmptyH, FEmptyH>>}
  ELSE LET k == FSplit(n)
           a == FRange(L, lo, k)
           b == FRange(L, lo + k, n - k)
           me == FRange(L, lo, n)
       IN  {<<me[2], me[1], FALSE, a[2], b[2]>>} \cup FNodes(L, lo, k) \cup FNodes(L, lo + k, n - k)
=============================================================================
