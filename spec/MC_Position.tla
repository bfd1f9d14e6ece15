----------------------------- MODULE MC_Position ----------------------------
(***************************************************************************)
(* The code's position arithmetic and path iteration against the           *)
(* declarative geometry: every node up to a height, every (leaf count,     *)
(* leaf, root) up to a count.                                              *)
(***************************************************************************)
EXTENDS PositionCode, Geometry, WideGeometry

CONSTANTS MaxHeight, MaxLeaves
VARIABLES kind, h, j        \* a node <<h, j>>, or a tree of h leaves and leaf j

Init == \/ kind = "node" /\ h \in 0 .. MaxHeight /\ j \in 0 .. 2^(MaxHeight - h) - 1
        \/ kind = "tree" /\ h \in 1 .. MaxLeaves /\ j \in 0 .. h - 1
Next == UNCHANGED <<kind, h, j>>
Spec == Init /\ [][Next]_<<kind, h, j>>

n == <<h, j>>
p == GIndex(h, j)
Ix(x) == GIndex(x[1], x[2])
Uo(x) == UOf(x)

Arithmetic == kind = "node" =>
  /\ Height(p) = h
  /\ Parent(p) = Ix(GParent(n))
  /\ (h > 0 => LeftChild(p) = Ix(GLeft(n)) /\ RightChild(p) = Ix(GRight(n)))
  /\ (h > 0 => Parent(LeftChild(p)) = p /\ Parent(RightChild(p)) = p)
  /\ Sibling(p) = Ix(GSibling(n)) /\ Sibling(Sibling(p)) = p
  /\ Parent(Sibling(p)) = Parent(p)
  \* in-order: the leaves below a node surround it
  /\ \A l \in GLeaves(n) : IF h = 0 THEN 2 * l = p ELSE 2 * l # p
  /\ {l \in GLeaves(n) : 2 * l < p} = IF h = 0 THEN {} ELSE GLeaves(GLeft(n))

Wide == kind = "node" =>
  /\ WHeight(Uo(p)) = h /\ WParent(Uo(p)) = Uo(Ix(GParent(n)))
  /\ WSibling(Uo(p)) = Uo(Ix(GSibling(n))) /\ WUncle(Uo(p)) = Uo(Ix(GUncle(n)))
  /\ (h > 0 => WLeft(Uo(p)) = Uo(Ix(GLeft(n))) /\ WRight(Uo(p)) = Uo(Ix(GRight(n))))

Seq2U(s) == [x \in 1 .. Len(s) |-> <<Uo(s[x][1]), Uo(s[x][2])>>]

\* Any power of two that covers the tree may be taken as the root.
Paths == kind = "tree" =>
  /\ \A e \in GCeilLog(h) .. GCeilLog(h) + 2 :
       PosPath(2^e - 1, j, h) = GTreePath(h, j)
  /\ WTreePath(Uo(h), Uo(j)) = Seq2U(GTreePath(h, j))
  /\ RawPath(2^GCeilLog(h) - 1, 2^GCeilLog(h) - 1, 2 * j)
       = GDown(<<GCeilLog(h), 0>>, j, <<GCeilLog(h), 0>>)
  /\ WDown(Uo(2^GCeilLog(h) - 1), Uo(j), Uo(2^GCeilLog(h) - 1))
       = Seq2U(GDown(<<GCeilLog(h), 0>>, j, <<GCeilLog(h), 0>>))
=============================================================================
