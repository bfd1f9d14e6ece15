------------------------------- MODULE MC_Map -------------------------------
(* Sanity of the contract: operations on different keys do not interfere. *)
EXTENDS MapStore
CONSTANTS K, V
Next == \E k \in K : (\E v \in V : Insert(k, v)) \/ Delete(k) \/ Look
Spec == KInit /\ [][Next]_kv
TypeOK == DOMAIN kv \subseteq K /\ \A k \in DOMAIN kv : kv[k] \in V
OneKey == [][\E k \in K : \A j \in K \ {k} : (j \in DOMAIN kv <=> j \in DOMAIN kv') /\ (j \in DOMAIN kv => kv'[j] = kv[j])]_kv
=============================================================================
