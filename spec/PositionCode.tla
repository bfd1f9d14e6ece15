---------------------------- MODULE PositionCode ----------------------------
(***************************************************************************)
(* Position arithmetic and path iteration as the code does it              *)
(* (src/common/position.rs, path_iterator.rs, position_path.rs), over      *)
(* in-order indices.  MC_Position checks it against the declarative        *)
(* geometry of Geometry.tla.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE Height(_)
Height(p) == IF p % 2 = 0 THEN 0 ELSE 1 + Height(p \div 2)     \* trailing ones
Orientation(p) == (p \div 2^(Height(p) + 1)) % 2
Parent(p) == IF Orientation(p) = 0 THEN p + 2^Height(p) ELSE p - 2^Height(p)
Sibling(p) == IF Orientation(p) = 0 THEN p + 2^(Height(p) + 1) ELSE p - 2^(Height(p) + 1)
LeftChild(p) == p - 2^(Height(p) - 1)
RightChild(p) == p + 2^(Height(p) - 1)

\* Positions from root position r down to leaf position q, with the other
\* child at each step: <<path, side>>, as PathIter yields them.
RECURSIVE RawPath(_, _, _)
RawPath(p, side, q) ==
  <<<<p, side>>>> \o
  (IF p % 2 = 0 THEN <<>>
   ELSE IF q < p THEN RawPath(LeftChild(p), RightChild(p), q)
                 ELSE RawPath(RightChild(p), LeftChild(p), q))

\* PositionPath: the same, restricted to a tree whose rightmost leaf is at rm.
RECURSIVE Lower(_, _)
Lower(side, rm) == IF side > rm THEN Lower(LeftChild(side), rm) ELSE side

RECURSIVE Filter(_, _, _)
Filter(raw, held, rm) ==
  IF raw = <<>> THEN <<>>
  ELSE LET p == Head(raw)[1]
           s == IF held = <<>> THEN Head(raw)[2] ELSE held[1]
       IN IF p <= rm THEN <<<<p, Lower(s, rm)>>>> \o Filter(Tail(raw), <<>>, rm)
                     ELSE Filter(Tail(raw), <<s>>, rm)

PosPath(rootPos, leaf, n) == Filter(RawPath(rootPos, rootPos, 2 * leaf), <<>>, 2 * (n - 1))

RECURSIVE NextPow2From(_, _)
NextPow2From(p, n) == IF p >= n THEN p ELSE NextPow2From(2 * p, n)
NextPow2(n) == NextPow2From(1, n)
\* The code takes the root position, and the peaks, of the tree with one more leaf.
RootPos(n) == NextPow2(n + 1) - 1
PeakPositions(n) == LET pp == Tail(PosPath(RootPos(n), n, n + 1))
                    IN  [x \in 1 .. Len(pp) |-> pp[x][2]]

=============================================================================
