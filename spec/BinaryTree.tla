----------------------------- MODULE BinaryTree -----------------------------
(***************************************************************************)
(* What a binary Merkle tree over a list of leaves IS: its root, its       *)
(* inclusion proofs, how a proof is verified, which subtrees are complete  *)
(* and where they live in the in-order numbering.  Purely declarative; no  *)
(* state.  The hash is a parameter: symbolic terms when the design is      *)
(* model checked (SymHash), SHA-256 when recorded executions are judged    *)
(* (ShaHash).                                                              *)
(*                                                                         *)
(* A "leaf list" L below is the sequence of leaf DIGESTS, in push order.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS EmptyH,        \* digest of the empty tree
          LeafH(_),      \* digest of a leaf, from its data
          NodeH(_, _)    \* digest of an inner node, from its children's

\* The largest power of two strictly below n (n >= 2).
RECURSIVE Pow2BelowFrom(_, _)
Pow2BelowFrom(p, n) == IF 2 * p >= n THEN p ELSE Pow2BelowFrom(2 * p, n)
Pow2Below(n) == Pow2BelowFrom(1, n)

\* Root of L[lo+1 .. lo+n].
RECURSIVE MthRange(_, _, _)
MthRange(L, lo, n) ==
  IF n = 0 THEN EmptyH
  ELSE IF n = 1 THEN L[lo + 1]
  ELSE LET k == Pow2Below(n)
       IN  NodeH(MthRange(L, lo, k), MthRange(L, lo + k, n - k))

MTH(L) == MthRange(L, 0, Len(L))

\* Siblings of leaf i (0-based, relative to lo), from the leaf up.
RECURSIVE PathRange(_, _, _, _)
PathRange(i, L, lo, n) ==
  IF n <= 1 THEN <<>>
  ELSE LET k == Pow2Below(n)
       IN IF i < k
          THEN Append(PathRange(i, L, lo, k), MthRange(L, lo + k, n - k))
          ELSE Append(PathRange(i - k, L, lo + k, n - k), MthRange(L, lo, k))

\* The proof set of leaf i: its own digest, then its siblings up to the root.
Proof(i, L) == <<L[i + 1]>> \o PathRange(i, L, 0, Len(L))

\* On which side the path lies at each step, from the leaf up.
RECURSIVE Sides(_, _)
Sides(i, n) ==
  IF n <= 1 THEN <<>>
  ELSE LET k == Pow2Below(n)
       IN IF i < k THEN Append(Sides(i, k), "L")
                   ELSE Append(Sides(i - k, n - k), "R")

\* The digest that a proof set leads to, for leaf i of n.
RECURSIVE FoldUp(_, _, _)
FoldUp(acc, sides, sibs) ==
  IF sides = <<>> THEN acc
  ELSE FoldUp(IF Head(sides) = "L" THEN NodeH(acc, Head(sibs))
                                   ELSE NodeH(Head(sibs), acc),
              Tail(sides), Tail(sibs))

\* Proof verification, declaratively: right index, right length, right root.
Accepts(root, set, i, n) ==
  /\ i < n
  /\ LET s == Sides(i, n)
     IN  /\ Len(set) = Len(s) + 1
         /\ FoldUp(Head(set), s, Tail(set)) = root

-----------------------------------------------------------------------------
(* Geometry: node <<h, j>> is the j-th node (0-based) of height h.         *)

InOrder(h, j) == j * 2^(h + 1) + 2^h - 1

RECURSIVE Log2Floor(_)
Log2Floor(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Floor(n \div 2)

\* The subtrees that are complete in a tree of n leaves.
CompleteNodes(n) ==
  IF n = 0 THEN {}
  ELSE UNION { { <<h, j>> : j \in 0 .. (n \div 2^h) - 1 } : h \in 0 .. Log2Floor(n) }

NodeDigest(L, h, j) == MthRange(L, j * 2^h, 2^h)

\* The peaks of n leaves, left to right (heights strictly decreasing).
RECURSIVE PeaksFrom(_, _)
PeaksFrom(lo, n) ==
  IF n = 0 THEN <<>>
  ELSE LET h == Log2Floor(n)
       IN  <<<<h, lo \div 2^h>>>> \o PeaksFrom(lo + 2^h, n - 2^h)
Peaks(n) == PeaksFrom(0, n)

\* What must be in the store after the leaves L have been pushed.
Persisted(L) ==
  { <<InOrder(x[1], x[2]), NodeDigest(L, x[1], x[2])>> : x \in CompleteNodes(Len(L)) }

\* The complete subtrees whose digests appear in the proof of leaf i (0-based,
\* relative to lo).
RECURSIVE SiblingNodes(_, _, _)
SiblingNodes(i, lo, n) ==
  IF n <= 1 THEN {}
  ELSE LET k == Pow2Below(n)
           whole(a, m) == IF 2^Log2Floor(m) = m
                          THEN {<<Log2Floor(m), a \div m>>} ELSE {}
       IN IF i < k THEN SiblingNodes(i, lo, k) \cup whole(lo + k, n - k)
                   ELSE SiblingNodes(i - k, lo + k, n - k) \cup whole(lo, k)

\* Everything in the store that producing the proof of leaf i may depend on.
ProofDeps(i, n) ==
  {<<0, i>>} \cup SiblingNodes(i, 0, n)
             \cup { Peaks(n)[x] : x \in 1 .. Len(Peaks(n)) }

Keys(nodes) == { InOrder(x[1], x[2]) : x \in nodes }
=============================================================================
