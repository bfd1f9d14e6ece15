----------------------------- MODULE Trace_Map ------------------------------
(***************************************************************************)
(* Recorded calls of the in-memory storage.  An optional value is recorded *)
(* as a list of at most one element.                                       *)
(***************************************************************************)
EXTENDS TraceBase, MapStore
Init == TraceStart /\ KInit
TNew      == Ev("new") /\ kv' = [x \in {} |-> ""]
TGet      == Ev("get") /\ ev.r = "ok" /\ ev.v = At(ev.k) /\ Look
TContains == Ev("contains") /\ ev.r = "ok" /\ ev.v = (ev.k \in DOMAIN kv) /\ Look
TInsert   == Ev("insert") /\ ev.r = "ok" /\ ev.v = At(ev.k) /\ Insert(ev.k, ev.new)
TRemove   == Ev("remove") /\ ev.r = "ok" /\ ev.v = At(ev.k) /\ Delete(ev.k)
\* Many absent keys were inserted, as in ev.m (key -> value), and many present
\* ones removed, ev.m being what the calls returned; ev.odd: calls that did not
\* return what such a call can return (nothing, something).
TFill == /\ Ev("fill") /\ ev.odd = 0
         /\ Assert(DOMAIN ev.m \cap DOMAIN kv = {}, "harness error")
         /\ kv' = ev.m @@ kv
TDrain == /\ Ev("drain") /\ ev.odd = 0
          /\ Assert(DOMAIN ev.m \subseteq DOMAIN kv, "harness error")
          /\ \A k \in DOMAIN ev.m : ev.m[k] = kv[k]
          /\ kv' = [k \in DOMAIN kv \ DOMAIN ev.m |-> kv[k]]
Next == TFill \/ TDrain \/ TNew \/ TGet \/ TContains \/ TInsert \/ TRemove
Spec == Init /\ [][Next]_<<l, kv>>
=============================================================================
