---------------------------- MODULE SparseForest ----------------------------
(***************************************************************************)
(* Several sparse trees on one store, grown by updates only, at the grain  *)
(* of their public operations: each has its map, and whatever root any of  *)
(* them ever reported can be loaded by all.                                *)
(***************************************************************************)
EXTENDS SparseMap, TLC

VARIABLES maps,      \* handle -> (key -> value digest)
          shared     \* root -> map, for all roots that can be loaded

PInit       == maps = [h \in {} |-> NoEntries] /\ shared = (ZeroH :> NoEntries)
PNew(h)     == maps' = (h :> NoEntries) @@ maps /\ UNCHANGED shared
PPut(h, k, v) == LET m == With(maps[h], k, v)
                 IN  maps' = (h :> m) @@ maps /\ shared' = (SRoot(m) :> m) @@ shared
PLoad(h, r) == r \in DOMAIN shared /\ maps' = (h :> shared[r]) @@ maps /\ UNCHANGED shared
PRead       == UNCHANGED <<maps, shared>>
PRootOut(h) == SRoot(maps[h])
=============================================================================
