---------------------------- MODULE Trace_Inject ----------------------------
(***************************************************************************)
(* Roots recorded for many contents of one kind of tree: the root is a     *)
(* function of the content, and the content a function of the root.        *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES content,     \* root -> content
          rootOf       \* content -> root
Empty == [x \in {} |-> ""]
Init == TraceStart /\ content = Empty /\ rootOf = Empty
TNew  == Ev("new") /\ content' = Empty /\ rootOf' = Empty
TSeen == /\ Ev("seen") /\ ev.r = "ok"
         /\ ev.root \in DOMAIN content => content[ev.root] = ev.c
         /\ ev.c \in DOMAIN rootOf => rootOf[ev.c] = ev.root
         /\ content' = (ev.root :> ev.c) @@ content
         /\ rootOf' = (ev.c :> ev.root) @@ rootOf
Next == TNew \/ TSeen
Spec == Init /\ [][Next]_<<l, content, rootOf>>
=============================================================================
