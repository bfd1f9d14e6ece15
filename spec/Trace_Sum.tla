------------------------------ MODULE Trace_Sum -----------------------------
(***************************************************************************)
(* Recorded executions of sum trees, judged by the contract SumLog with    *)
(* SHA-256 and 64-bit fees.                                                *)
(***************************************************************************)
EXTENDS TraceBase, SumLog, U64, ShaHash, FiniteSets

VARIABLES store,     \* digest -> <<height, fee, left digest or "", right digest or "">>
          offered    \* <<fee, leaf digest>> of all pushes, also failed ones
tvars == <<l, items, store, offered>>

NoStore == [x \in {} |-> ""]
Init == TraceStart /\ FInit /\ store = NoStore /\ offered = {}

TNew == Ev("new") /\ items' = <<>> /\ store' = NoStore /\ offered' = {}

\* ev.f: a storage call failed during the operation.
TPush ==
  /\ Ev("push") /\ UNCHANGED store
  /\ offered' = offered \cup {<<ev.fee, FLeafH(ev.fee, ev.d)>>}
  /\ IF ev.f THEN ev.r = "storage" /\ FPushFails
             ELSE ev.r = "ok" /\ FPush(ev.fee, ev.d)

TPushN == /\ Ev("pushn") /\ ev.r = "ok" /\ UNCHANGED store
          /\ LET new == [x \in 1 .. Len(ev.ds) |-> <<ev.ds[x][1], FLeafH(ev.ds[x][1], ev.ds[x][2])>>]
             IN  /\ items' = items \o new
                 /\ offered' = offered \cup {new[x] : x \in 1 .. Len(ev.ds)}

TRoot ==
  /\ Ev("root") /\ FRead /\ UNCHANGED <<store, offered>>
  /\ IF ev.f THEN ev.r = "storage"
     ELSE ev.r = "ok" /\ <<ev.fee, ev.v>> = FRootOut

\* What the store gained since the last report: <<digest, height, fee, left, right>>,
\* with "" for absent children; entries changed in place, and removed.
TStore ==
  /\ Ev("store") /\ FRead /\ UNCHANGED offered
  /\ ev.rem = 0 /\ ev.chg = 0
  /\ LET ks == {ev.add[x][1] : x \in 1 .. Len(ev.add)}
         at == [d \in ks |-> CHOOSE x \in 1 .. Len(ev.add) : ev.add[x][1] = d]
     IN  /\ store' = [d \in ks |-> SubSeq(ev.add[at[d]], 2, 5)] @@ store
         /\ \A d \in ks :
              LET e == store'[d] IN
              IF e[3] = "" \/ e[4] = ""
              THEN e[3] = "" /\ e[4] = "" /\ e[1] = 0 /\ <<e[2], d>> \in offered
              ELSE /\ e[3] \in DOMAIN store' /\ e[4] \in DOMAIN store'
                   /\ LET a == store'[e[3]]
                          b == store'[e[4]]
                      IN /\ e[2] = UAdd(a[2], b[2])
                         /\ e[1] = a[1] + 1
                         /\ d = FNodeH(a[2], e[3], b[2], e[4])
  \* A root has just been reported: its nodes are present, down to the leaves.
  /\ ev.full =>
       \A x \in FNodes(items, 0, Len(items)) :
          /\ x[1] \in DOMAIN store'
          /\ store'[x[1]][2] = x[2]
          /\ IF x[3] THEN store'[x[1]][3] = "" /\ store'[x[1]][4] = ""
             ELSE store'[x[1]][3] = x[4] /\ store'[x[1]][4] = x[5]

\* Many pushes (some with a failing write) at once, each followed by the root
\* (also with a failing write), judged by the complete subtrees.
GStep(pk, s) ==     \* the subtrees after the step, in a tuple, or <<>>
  LET p1 == IF s.f THEN pk ELSE FPeakPush(pk, <<1, s.fee, FLeafH(s.fee, s.d)>>)
  IN IF /\ s.r = IF s.f THEN "storage" ELSE "ok"
        /\ s.rr \in {"", IF s.rf THEN "storage" ELSE "ok"}
        /\ s.rr = "ok" => <<s.rfee, s.v>> = FPeakRoot(p1)
     THEN <<p1>> ELSE <<>>
RECURSIVE GSteps(_, _)
GSteps(pk, x) ==
  IF x > Len(ev.steps) THEN TRUE
  ELSE LET p == GStep(pk, ev.steps[x]) IN p # <<>> /\ GSteps(p[1], x + 1)
TGrow ==
  /\ Ev("grow") /\ UNCHANGED store
  /\ GSteps(FPeaks(items), 1)
  /\ LET done == SelectSeq(ev.steps, LAMBDA s : ~s.f)
         new  == [x \in 1 .. Len(done) |-> <<done[x].fee, FLeafH(done[x].fee, done[x].d)>>]
     IN  items' = items \o new
  \* (the stores of these histories are not reported)
  /\ UNCHANGED offered

Next == TNew \/ TGrow \/ TPush \/ TPushN \/ TRoot \/ TStore
Spec == Init /\ [][Next]_tvars
=============================================================================
