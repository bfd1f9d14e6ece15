----------------------------- MODULE Trace_Cost -----------------------------
(***************************************************************************)
(* Recorded numbers of storage calls (ev.c: reads and writes together).    *)
(***************************************************************************)
EXTENDS TraceBase, Cost, Sha256, FiniteSets

VARIABLES n,        \* leaves of the binary or sum tree
          keys      \* keys of the sparse tree
tvars == <<l, n, keys>>

Init == TraceStart /\ n = 0 /\ keys = {}
TNew  == Ev("new") /\ n' = 0 /\ keys' = {}
Ok(b) == ev.r = "ok" /\ ev.c <= b

TSkip == Ev("skip") /\ ev.r = "ok" /\ n' = n + ev.m /\ UNCHANGED keys
TPush == Ev("push") /\ Ok(LogCost(n)) /\ n' = n + 1 /\ UNCHANGED keys
\* root and prove
TRead == Ev("read") /\ Ok(LogCost(n)) /\ UNCHANGED <<n, keys>>
TLoad == Ev("load") /\ Ok(LogCost(ev.k)) /\ n' = ev.k /\ UNCHANGED keys

\* The inner nodes on the path of k among the keys S: those above its leaf, or
\* above the leaf that it would become.
Inner(k, S) == IF S \ {k} = {} THEN 0 ELSE 1 + MaxCommon(k, S \ {k})
TSUpdate == Ev("supdate") /\ Ok(PathCost(Inner(ev.k, keys))) /\ keys' = keys \cup {ev.k} /\ UNCHANGED n
TSDelete == Ev("sdelete") /\ Ok(PathCost(Inner(ev.k, keys))) /\ keys' = keys \ {ev.k} /\ UNCHANGED n
\* root and load
TSRead   == Ev("sread") /\ Ok(PathCost(0)) /\ UNCHANGED <<n, keys>>
TSMany   == Ev("smany") /\ ev.r = "ok" /\ keys' = keys \cup {ev.ks[x] : x \in 1 .. Len(ev.ks)} /\ UNCHANGED n

Next == TNew \/ TSkip \/ TPush \/ TRead \/ TLoad \/ TSUpdate \/ TSDelete \/ TSRead \/ TSMany
Spec == Init /\ [][Next]_tvars
=============================================================================
