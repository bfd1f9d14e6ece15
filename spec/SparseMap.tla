------------------------------ MODULE SparseMap -----------------------------
(***************************************************************************)
(* What a (compact) sparse Merkle tree over a key-value map IS: its root   *)
(* and its nodes.  Purely declarative.  A map m takes keys to value        *)
(* digests; a key is a string of MaxH bits.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxH,          \* number of key bits
          BitOf(_, _),   \* bit d of a key, 0 being the most significant
          ZeroH,         \* digest of an empty subtree
          SLeafH(_, _),  \* digest of an entry: key, value digest
          SNodeH(_, _)   \* digest of an inner node

Zeros(S, d) == { k \in S : BitOf(k, d) = 0 }

\* Root of the subtree at depth d that holds the entries with keys S.
RECURSIVE SubRoot(_, _, _)
SubRoot(m, S, d) ==
  IF S = {} THEN ZeroH
  ELSE IF Cardinality(S) = 1 THEN LET k == CHOOSE x \in S : TRUE IN SLeafH(k, m[k])
  ELSE LET z == Zeros(S, d)
       IN  SNodeH(SubRoot(m, z, d + 1), SubRoot(m, S \ z, d + 1))

SRoot(m) == SubRoot(m, DOMAIN m, 0)

\* The inner nodes and leaves of that subtree, bottom up: <<root, nodes>>, a
\* node being <<its digest, height, kind, lo, hi>> with kind 0 for a leaf
\* (lo, hi: key, value digest) and 1 for an inner node (lo, hi: its children).
RECURSIVE SubNodes(_, _, _)
SubNodes(m, S, d) ==
  IF S = {} THEN <<ZeroH, {}>>
  ELSE IF Cardinality(S) = 1
  THEN LET k == CHOOSE x \in S : TRUE
       IN  <<SLeafH(k, m[k]), {<<SLeafH(k, m[k]), 0, 0, k, m[k]>>}>>
  ELSE LET z  == Zeros(S, d)
           a  == SubNodes(m, z, d + 1)
           b  == SubNodes(m, S \ z, d + 1)
           me == SNodeH(a[1], b[1])
       IN  <<me, {<<me, MaxH - d, 1, a[1], b[1]>>} \cup a[2] \cup b[2]>>

\* Everything a store must hold for the tree to be readable from its root.
SNodes(m) == SubNodes(m, DOMAIN m, 0)[2]

\* What a removal makes stale: the nodes above and at the entry with key k.
SStale(m, k) == {x[1] : x \in SNodes(m)} \ {x[1] : x \in SNodes([y \in DOMAIN m \ {k} |-> m[y]])}

Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
NoEntries     == [x \in {} |-> ZeroH]
=============================================================================
