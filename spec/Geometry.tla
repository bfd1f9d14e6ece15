------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The in-order numbered binary tree, declaratively, over small naturals.  *)
(* Node <<h, j>> is the j-th node, from the left, of height h; a tree of m *)
(* leaves starting at leaf lo is named by the node that covers it.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

GIndex(h, j)   == j * 2^(h + 1) + 2^h - 1
GParent(n)     == <<n[1] + 1, n[2] \div 2>>
GSibling(n)    == <<n[1], IF n[2] % 2 = 0 THEN n[2] + 1 ELSE n[2] - 1>>
GUncle(n)      == GSibling(GParent(n))
GLeft(n)       == <<n[1] - 1, 2 * n[2]>>
GRight(n)      == <<n[1] - 1, 2 * n[2] + 1>>
\* The leaves below node <<h, j>>.
GLeaves(n)     == n[2] * 2^n[1] .. (n[2] + 1) * 2^n[1] - 1

RECURSIVE GCeilLog(_)
GCeilLog(m) == IF m <= 1 THEN 0 ELSE 1 + GCeilLog((m + 1) \div 2)

\* The node that stands for the leaves lo .. lo + m - 1 of a canonical tree.
GNode(lo, m) == LET c == GCeilLog(m) IN GIndex(c, lo \div 2^c)

\* From the root of that tree to leaf i: <<node, root of the sibling subtree>>.
RECURSIVE GPath(_, _, _, _)
GPath(lo, m, i, side) ==
  <<<<GNode(lo, m), side>>>> \o
  (IF m = 1 THEN <<>>
   ELSE LET k == 2^(GCeilLog(m) - 1)
        IN IF i < lo + k THEN GPath(lo, k, i, GNode(lo + k, m - k))
                         ELSE GPath(lo + k, m - k, i, GNode(lo, k)))

GTreePath(m, i) == GPath(0, m, i, GNode(0, m))

\* From node n straight down to leaf i of the complete tree below it.
RECURSIVE GDown(_, _, _)
GDown(n, i, side) ==
  <<<<GIndex(n[1], n[2]), GIndex(side[1], side[2])>>>> \o
  (IF n[1] = 0 THEN <<>>
   ELSE IF i \in GLeaves(GLeft(n)) THEN GDown(GLeft(n), i, GRight(n))
                                   ELSE GDown(GRight(n), i, GLeft(n)))
=============================================================================
