------------------------------ MODULE RefTree -------------------------------
(***************************************************************************)
(* The reference (test-helpers) binary tree, step by step: subtrees in a   *)
(* linked list, and one proof collected while leaves stream by.            *)
(***************************************************************************)
EXTENDS BinaryLog

CONSTANTS Data, MaxLeaves, MaxIndex

VARIABLES head,      \* subtrees, newest (smallest) first: <<height, digest>>
          count, index, set
rvars == <<leaves, head, count, index, set>>

RInit == LogInit /\ head = <<>> /\ count = 0 /\ index \in 0 .. MaxIndex /\ set = <<>>

Join(a, b) == <<a[1] + 1, NodeH(a[2], b[2])>>

RECURSIVE JoinAll(_, _, _)
JoinAll(h, s, n) ==
  IF Len(h) < 2 \/ h[1][1] # h[2][1] THEN <<h, s>>
  ELSE LET hl  == 2^h[1][1]
           mid == (n \div hl) * hl
           s2  == IF h[1][1] + 1 = Len(s)
                  THEN Append(s, IF index < mid THEN h[1][2] ELSE h[2][2]) ELSE s
       IN JoinAll(<<Join(h[2], h[1])>> \o SubSeq(h, 3, Len(h)), s2, n)

RPush(d) ==
  /\ Len(leaves) < MaxLeaves
  /\ Push(d)
  /\ LET s == IF count = index THEN Append(set, LeafH(d)) ELSE set
         r == JoinAll(<<<<0, LeafH(d)>>>> \o head, s, count)
     IN  head' = r[1] /\ set' = r[2]
  /\ count' = count + 1 /\ UNCHANGED index

RNext == \E d \in Data : RPush(d)
RSpec == RInit /\ [][RNext]_rvars

RECURSIVE Fold(_)
Fold(h) == IF Len(h) = 1 THEN h[1][2] ELSE Fold(<<Join(h[2], h[1])>> \o SubSeq(h, 3, Len(h)))
RRoot == IF head = <<>> THEN EmptyH ELSE Fold(head)

\* prove(): the last part of the proof, from the subtrees that are left.
RECURSIVE Below(_, _)
Below(h, s) == IF Len(h) >= 2 /\ h[2][1] < Len(s) - 1
               THEN Below(<<Join(h[2], h[1])>> \o SubSeq(h, 3, Len(h)), s) ELSE h
RProof ==
  IF head = <<>> \/ set = <<>> THEN set
  ELSE LET b  == Below(head, set)
           at == Len(b) >= 2 /\ b[2][1] = Len(set) - 1
           s  == IF at THEN Append(set, b[1][2]) ELSE set
           r  == IF at THEN Tail(b) ELSE b
       IN s \o [x \in 1 .. Len(r) - 1 |-> r[x + 1][2]]

RootOK  == RRoot = RootOut
CountOK == count = Len(leaves)
ProofOK == RProof = (IF index < Len(leaves) THEN Proof(index, leaves) ELSE <<>>)
=============================================================================
