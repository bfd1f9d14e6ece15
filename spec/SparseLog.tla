------------------------------ MODULE SparseLog -----------------------------
(***************************************************************************)
(* The sparse Merkle tree at the grain of its public operations: a map     *)
(* from keys to value digests, and the earlier maps, by root, which the    *)
(* store still has to be able to produce.                                  *)
(***************************************************************************)
EXTENDS SparseMap, TLC

VARIABLES map,       \* key -> value digest
          olds       \* root -> map, for all roots that can be loaded

SInit == map = NoEntries /\ olds = (ZeroH :> NoEntries)

\* An update keeps everything that could be loaded before.
Put(k, v) == LET m == With(map, k, v)
             IN  map' = m /\ olds' = (SRoot(m) :> m) @@ olds

\* A removal removes nodes: of the earlier maps, none need be loadable.
Remove(k) == IF k \in DOMAIN map
             THEN LET m == Without(map, k)
                  IN  map' = m /\ olds' = (SRoot(m) :> m) @@ (ZeroH :> NoEntries)
             ELSE UNCHANGED <<map, olds>>

SRead     == UNCHANGED <<map, olds>>

\* An operation that reports a storage failure has happened or it has not.
MaybePut(k, v) == Put(k, v) \/ SRead
MaybeRemove(k) == Remove(k) \/ SRead

\* Loading by root, which is possible for these roots at least.
LoadRoot(r) == r \in DOMAIN olds /\ map' = olds[r] /\ UNCHANGED olds

\* What root() reports.
SRootOut == SRoot(map)
=============================================================================
