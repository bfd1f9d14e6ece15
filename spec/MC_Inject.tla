------------------------------ MODULE MC_Inject -----------------------------
(***************************************************************************)
(* Different contents, different roots.  Here a hash is a perfect function *)
(* of a byte string: <<"H", s>>, where a byte string is a sequence of      *)
(* bytes <<"b", n>> and digests (a digest being 32 bytes that nothing else *)
(* yields).  Leaf data may contain digests and prefix bytes, so that data  *)
(* imitating inner nodes is part of the model; without the prefix bytes    *)
(* (Prefixed = FALSE), different lists of leaves do collide.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Prefixed, MaxLen

B(n) == <<"b", n>>
H(s) == <<"H", s>>
BEmpty      == H(<<>>)
BLeaf(d)    == IF Prefixed THEN H(<<B(0)>> \o d) ELSE H(d)
BNode(l, r) == IF Prefixed THEN H(<<B(1), l, r>>) ELSE H(<<l, r>>)

T == INSTANCE BinaryTree WITH EmptyH <- BEmpty, LeafH <- BLeaf, NodeH <- BNode

\* Plain data, and data made from the digests of leaves with plain data.
Plain == {<<>>, <<B(0)>>, <<B(1)>>}
Imitations ==
  LET a == BLeaf(<<>>)
      b == BLeaf(<<B(1)>>)
  IN { <<a, b>>, <<B(1), a, b>>, <<B(0), a, b>>, <<B(1), a, a>>, <<a, a>>, <<BNode(a, b)>> }
Data == Plain \cup Imitations

VARIABLE list
Init == list = <<>>
Next == Len(list) < MaxLen /\ \E d \in Data : list' = Append(list, d)
Spec == Init /\ [][Next]_list

Root(s) == T!MTH([x \in 1 .. Len(s) |-> BLeaf(s[x])])

\* The leaves below a node, read off the node's preimage alone: whoever has
\* the root's preimages can read the list back, so no other list has the root.
RECURSIVE Decode(_)
Decode(t) ==
  LET s == t[2]
  IN IF Len(s) = 3 /\ s[1] = B(1) THEN Decode(s[2]) \o Decode(s[3]) ELSE <<Tail(s)>>
Injective == IF list = <<>> THEN Root(list) = BEmpty
             ELSE Root(list) # BEmpty /\ (Prefixed => Decode(Root(list)) = list)

\* And directly, over all pairs of lists up to three leaves.
Lists == {<<>>} \cup UNION {[1 .. n -> Data] : n \in 1 .. 3}
ASSUME Cardinality({Root(s) : s \in Lists}) = Cardinality(Lists)
=============================================================================
