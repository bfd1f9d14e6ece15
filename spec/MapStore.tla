------------------------------ MODULE MapStore ------------------------------
(***************************************************************************)
(* A key-value store: the contract that storages offer to the trees, and   *)
(* that the in-memory storage has to keep.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLE kv            \* key -> value

KInit == kv = [x \in {} |-> ""]

At(k)        == IF k \in DOMAIN kv THEN <<kv[k]>> ELSE <<>>   \* an optional value
Insert(k, v) == kv' = [x \in DOMAIN kv \cup {k} |-> IF x = k THEN v ELSE kv[x]]
Delete(k)    == kv' = [x \in DOMAIN kv \ {k} |-> kv[x]]
Look         == UNCHANGED kv
=============================================================================
