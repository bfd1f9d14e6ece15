------------------------------ MODULE SumMerkle -----------------------------
(***************************************************************************)
(* The sum tree step by step, as src/sum/merkle_tree.rs does it: peaks in  *)
(* memory, every leaf and every joined node written to a store keyed by    *)
(* digest -- by pushes and by root requests alike, where any write may     *)
(* fail.                                                                   *)
(***************************************************************************)
EXTENDS SumLog, FiniteSets, TLC

CONSTANTS Fees, FData, MaxItems,
          Forgets      \* TRUE: a failed join loses peaks (the repaired defect)

VARIABLES store,       \* digest -> [h, fee, kids]
          peaks,       \* newest first: [h, fee, dig]
          work,        \* peaks of the operation in progress
          cur,         \* <<fee, data>> of the push in progress
          pc           \* "idle", "pushing", "bagging"

vars == <<items, store, peaks, work, cur, pc>>

NodeOf(a, b) == [h |-> a.h + 1, fee |-> FAdd(a.fee, b.fee), dig |-> FNodeH(a.fee, a.dig, b.fee, b.dig)]
Entry(n, kids) == n.dig :> [h |-> n.h, fee |-> n.fee, kids |-> kids]
CanJoin(ps) == Len(ps) >= 2 /\ ps[1].h = ps[2].h

Init == FInit /\ store = <<>> /\ peaks = <<>> /\ work = <<>> /\ cur = <<>> /\ pc = "idle"

Done(ps) == /\ peaks' = ps /\ work' = <<>> /\ cur' = <<>> /\ pc' = "idle"

PushLeaf(f, d) ==
  /\ pc = "idle" /\ Len(items) < MaxItems
  /\ LET n == [h |-> 0, fee |-> f, dig |-> FLeafH(f, d)]
         w == <<n>> \o peaks
     IN /\ store' = Entry(n, <<>>) @@ store
        /\ IF CanJoin(w)
           THEN work' = w /\ cur' = <<f, d>> /\ pc' = "pushing" /\ UNCHANGED <<peaks, items>>
           ELSE Done(w) /\ FPush(f, d)

RootBegins == /\ pc = "idle" /\ Len(peaks) > 1
              /\ work' = peaks /\ pc' = "bagging" /\ UNCHANGED <<items, store, peaks, cur>>

Join ==
  /\ pc # "idle"
  /\ LET j == LET a == work[2] b == work[1] IN NodeOf(a, b)
         w == <<j>> \o SubSeq(work, 3, Len(work))
     IN /\ store' = Entry(j, <<work[2].dig, work[1].dig>>) @@ store
        /\ IF pc = "pushing" /\ ~CanJoin(w) THEN Done(w) /\ FPush(cur[1], cur[2])
           ELSE IF pc = "bagging" /\ Len(w) = 1 THEN Done(peaks) /\ UNCHANGED items
           ELSE work' = w /\ UNCHANGED <<items, peaks, cur, pc>>

\* A write fails; the operation returns the error.
Fail == \/ pc = "idle" /\ UNCHANGED vars
        \/ /\ pc # "idle"
           /\ Done(IF Forgets /\ pc = "pushing" THEN SubSeq(work, 3, Len(work)) ELSE peaks)
           /\ UNCHANGED <<items, store>>

Next == \/ \E f \in Fees, d \in FData : PushLeaf(f, d)
        \/ RootBegins \/ Join \/ Fail
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Abstract == INSTANCE SumLog
Refines == [][\E f \in Fees, d \in FData : Abstract!FPush(f, d)]_items

\* There are few peaks; pushes and root requests write one node for each join.
FewPeaks == 2^(Len(peaks)) <= 2 * (Len(items) + 1) /\ 2^(Len(work)) <= 4 * (Len(items) + 1)

RECURSIVE BagAll(_)
BagAll(ps) == IF Len(ps) = 1 THEN <<ps[1].fee, ps[1].dig>>
              ELSE BagAll(<<NodeOf(ps[2], ps[1])>> \o SubSeq(ps, 3, Len(ps)))
RootOK == (IF peaks = <<>> THEN <<FZero, FEmptyH>> ELSE BagAll(peaks)) = FRootOut

SelfCert == \A d \in DOMAIN store :
  LET e == store[d] IN
    e.kids = <<>> \/ /\ e.kids[1] \in DOMAIN store /\ e.kids[2] \in DOMAIN store
                     /\ LET a == store[e.kids[1]]
                            b == store[e.kids[2]]
                        IN /\ e.fee = FAdd(a.fee, b.fee) /\ e.h = a.h + 1
                           /\ d = FNodeH(a.fee, e.kids[1], b.fee, e.kids[2])

\* The root's nodes are all there once it has been reported.
HoldsRoot == (pc = "bagging" /\ Len(work) = 2) =>
  \A x \in FNodes(items, 0, Len(items)) :
     \/ x[1] \in DOMAIN store /\ store[x[1]].fee = x[2]
     \/ x[1] = FRootOut[2]
Total == pc = "idle" => FRootOut[1] = LET RECURSIVE S(_)
                                          S(n) == IF n = 0 THEN FZero ELSE FAdd(S(n - 1), items[n][1])
                                      IN S(Len(items))
=============================================================================
