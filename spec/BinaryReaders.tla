---------------------------- MODULE BinaryReaders ---------------------------
(***************************************************************************)
(* Several binary trees on one store, all growing along one line of        *)
(* leaves, at the grain of their public operations: whoever is ahead       *)
(* extends the line, the others follow or just read.  Any count that has   *)
(* been acknowledged can be loaded by all.                                 *)
(***************************************************************************)
EXTENDS BinaryTree, TLC

VARIABLES counts,    \* handle -> number of leaves
          line       \* digests of the leaves acknowledged by whoever is ahead

RInit       == counts = [h \in {} |-> 0] /\ line = <<>>
RNew(h)     == counts' = (h :> 0) @@ counts /\ UNCHANGED line
\* The next leaf of the line (a new one at its end).
RPush(h, d) == LET n == counts[h] IN
               /\ counts' = (h :> n + 1) @@ counts
               /\ IF n = Len(line) THEN line' = Append(line, LeafH(d))
                  ELSE line[n + 1] = LeafH(d) /\ UNCHANGED line
RLoad(h, k) == k \in 0 .. Len(line) /\ counts' = (h :> k) @@ counts /\ UNCHANGED line
RRead       == UNCHANGED <<counts, line>>
RLeaves(h)  == SubSeq(line, 1, counts[h])
=============================================================================
