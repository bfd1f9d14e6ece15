----------------------------- MODULE BinaryLog ------------------------------
(***************************************************************************)
(* The binary Merkle tree at the grain of its public operations: an        *)
(* append-only list of leaves.  Everything the API reports is a function   *)
(* of that list.  This is the contract; BinaryMerkle (the step-by-step     *)
(* model of the implementation) refines it, and Trace_Binary judges        *)
(* recorded executions of the code with these very actions.                *)
(***************************************************************************)
EXTENDS BinaryTree

VARIABLE leaves          \* digests of the acknowledged leaves, in push order

LogInit == leaves = <<>>

Push(d)      == leaves' = Append(leaves, LeafH(d))
\* A push that reports a storage failure has not happened.
PushFails    == UNCHANGED leaves
\* root, prove, and refused requests
Read         == UNCHANGED leaves
\* load(store, k): also "rewind", when k is below the number of leaves.
Load(k)      == k \in 0 .. Len(leaves) /\ leaves' = SubSeq(leaves, 1, k)

\* What the operations report.
RootOut       == MTH(leaves)
ProveOut(i)   == IF i < Len(leaves)
                 THEN [r |-> "ok", root |-> MTH(leaves), set |-> Proof(i, leaves)]
                 ELSE [r |-> "oor"]
=============================================================================
