---------------------------- MODULE Trace_Shared ----------------------------
(***************************************************************************)
(* Recorded executions of trees that share a store, their storage calls    *)
(* interleaved: each event is written when an operation returned, and      *)
(* names the handle (ev.h) it was called on.  Judged by SparseForest,      *)
(* BinaryReaders and SumTree with SHA-256.                                 *)
(***************************************************************************)
EXTENDS TraceBase, SparseForest, BinaryReaders, SumTree, U64, ShaHash

VARIABLE sums                 \* handle -> <<fee, leaf digest>> pairs
pvars == <<maps, shared>>
rvars == <<counts, line>>
tvars == <<l, maps, shared, counts, line, sums>>

NoHandles == [h \in {} |-> 0]
Init == TraceStart /\ PInit /\ RInit /\ sums = NoHandles

TNew == /\ Ev("new") /\ maps' = NoHandles /\ shared' = (ZeroH :> NoEntries)
        /\ counts' = NoHandles /\ line' = <<>> /\ sums' = NoHandles

-----------------------------------------------------------------------------
SOnly == UNCHANGED <<counts, line, sums>>
TSNew    == Ev("snew") /\ PNew(ev.h) /\ SOnly
\* ev.f: a storage call failed during the operation, which then has happened
\* or has not.
TSUpdate == /\ Ev("supdate") /\ SOnly
            /\ IF ev.f THEN ev.r = "storage" /\ (PPut(ev.h, ev.k, Sha(<<ev.d>>)) \/ PRead)
               ELSE ev.r = "ok" /\ PPut(ev.h, ev.k, Sha(<<ev.d>>))
TSRoot   == Ev("sroot") /\ ev.r = "ok" /\ ev.v = PRootOut(ev.h) /\ PRead /\ SOnly
TSLoad   == /\ Ev("sload") /\ SOnly
            /\ IF ev.f THEN ev.r = "storage" /\ PRead ELSE ev.r = "ok" /\ PLoad(ev.h, ev.root)
\* Everything in the store, entries <<key, height, kind, lo, hi>>: whatever was
\* reported is complete.
TSStore  == /\ Ev("sstore") /\ PRead /\ SOnly
            /\ LET has == {ev.es[x] : x \in 1 .. Len(ev.es)}
               IN  \A r \in DOMAIN shared : SNodes(shared[r]) \subseteq has
-----------------------------------------------------------------------------
BOnly == UNCHANGED <<maps, shared, sums>>
TBNew    == Ev("bnew") /\ RNew(ev.h) /\ BOnly
TBPush   == /\ Ev("bpush") /\ BOnly
            /\ IF ev.f THEN ev.r = "storage" /\ RRead ELSE ev.r = "ok" /\ RPush(ev.h, ev.d)
TBLoad   == /\ Ev("bload") /\ BOnly
            /\ IF ev.f THEN ev.r = "storage" /\ RRead ELSE ev.r = "ok" /\ RLoad(ev.h, ev.k)
TBRoot   == Ev("broot") /\ ev.r = "ok" /\ ev.v = MTH(RLeaves(ev.h)) /\ RRead /\ BOnly
TBProve  == /\ Ev("bprove") /\ RRead /\ BOnly
            /\ IF ev.f THEN ev.r = "storage"
               ELSE IF ev.i >= counts[ev.h] THEN ev.r = "oor"
               ELSE ev.r = "ok" /\ ev.root = MTH(RLeaves(ev.h)) /\ ev.set = Proof(ev.i, RLeaves(ev.h))
\* Everything in the store, entries <<key, position, digest>>.
TBStore  == /\ Ev("bstore") /\ RRead /\ BOnly
            /\ \A y \in Persisted(line) : \E x \in 1 .. Len(ev.es) : ev.es[x] = <<y[1], y[1], y[2]>>
-----------------------------------------------------------------------------
FOnly == UNCHANGED <<maps, shared, counts, line>>
TFNew    == Ev("fnew") /\ sums' = (ev.h :> <<>>) @@ sums /\ FOnly
TFPush   == /\ Ev("fpush") /\ FOnly
            /\ IF ev.f THEN ev.r = "storage" /\ UNCHANGED sums
               ELSE ev.r = "ok" /\ sums' = (ev.h :> Append(sums[ev.h], <<ev.fee, FLeafH(ev.fee, ev.d)>>)) @@ sums
TFRoot   == /\ Ev("froot") /\ FOnly /\ UNCHANGED sums
            /\ IF ev.f THEN ev.r = "storage" ELSE ev.r = "ok" /\ <<ev.fee, ev.v>> = FRoot(sums[ev.h])
\* Everything in the store, when every tree has just reported its root: entries
\* <<digest, height, fee, left digest or "", right digest or "">>.
TFStore  == /\ Ev("fstore") /\ FOnly /\ UNCHANGED sums
            /\ LET has == {<<ev.es[x][1], ev.es[x][3], ev.es[x][4], ev.es[x][5]>> : x \in 1 .. Len(ev.es)}
               IN  \A h \in DOMAIN sums : \A x \in FNodes(sums[h], 0, Len(sums[h])) :
                      <<x[1], x[2], IF x[3] THEN "" ELSE x[4], IF x[3] THEN "" ELSE x[5]>> \in has

Next == \/ TNew \/ TSNew \/ TSUpdate \/ TSRoot \/ TSLoad \/ TSStore
        \/ TBNew \/ TBPush \/ TBLoad \/ TBRoot \/ TBProve \/ TBStore
        \/ TFNew \/ TFPush \/ TFRoot \/ TFStore
Spec == Init /\ [][Next]_tvars
=============================================================================
