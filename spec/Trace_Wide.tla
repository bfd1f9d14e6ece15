----------------------------- MODULE Trace_Wide -----------------------------
(***************************************************************************)
(* Recorded executions of binary trees with huge leaf counts: reads,       *)
(* pushes, rewinds, failing storage calls, crashes, lost nodes.            *)
(***************************************************************************)
EXTENDS TraceBase, WideTree, FiniteSets

VARIABLES known,    \* the digests of nodes, as far as they are known
          n,        \* the number of leaves
          top,      \* the number of leaves the store was last acknowledged to hold
          lost,     \* known nodes that were removed behind the tree's back
          saved     \* a remembered <<known, n, top, lost>>
vars == <<l, known, n, top, lost, saved>>

Init == TraceStart /\ known = [x \in {} |-> ""] /\ n = UZero /\ top = UZero /\ lost = {} /\ saved = <<>>

Same == UNCHANGED <<known, n, top, lost, saved>>
There == DOMAIN known \ lost

\* A store with the given nodes, as left behind by ev.n pushes.
TSeed ==
  /\ Ev("seed")
  /\ LET k == [p \in {ev.nodes[x][1] : x \in 1 .. Len(ev.nodes)} |->
                 (CHOOSE x \in 1 .. Len(ev.nodes) : ev.nodes[x][1] = p)]
     IN  known' = [p \in DOMAIN k |-> ev.nodes[k[p]][2]]
  /\ Assert(WConsistent(known'), "harness error: inconsistent seed")
  /\ n' = UZero /\ top' = ev.n /\ lost' = {} /\ saved' = <<>>

TLoad ==
  /\ Ev("load") /\ UNCHANGED <<known, top, lost, saved>>
  /\ IF ev.f THEN ev.r = "storage" /\ UNCHANGED n
     ELSE IF WPeakKeys(ev.n) \subseteq There
     THEN Assert(ULe(ev.n, top), "harness error: load beyond the store") /\ ev.r = "ok" /\ n' = ev.n
     \* a load error names a node that is not there
     ELSE ev.r = "load" /\ ev.e \notin There /\ UNCHANGED n
TRoot == Ev("root") /\ ev.r = "ok" /\ ev.v = WRoot(known, n) /\ Same
TPush ==
  /\ Ev("push") /\ UNCHANGED saved
  /\ IF ev.f THEN ev.r = "storage" /\ top' = n /\ UNCHANGED <<known, n, lost>>
     ELSE /\ ev.r = "ok"
          /\ known' = WPush(known, n, ShaLeaf(ev.d)) /\ n' = UAdd(n, UOne)
          /\ top' = n' /\ lost' = lost \ WNewKeys(n)
\* The process ended inside a push.
TCrash == Ev("crash") /\ top' = n /\ UNCHANGED <<known, n, lost, saved>>
\* A push onto a store that held just the known nodes, with its writes.
TPushW ==
  /\ Ev("pushw") /\ ev.r = "ok" /\ UNCHANGED saved
  /\ known' = WPush(known, n, ShaLeaf(ev.d)) /\ n' = UAdd(n, UOne)
  /\ top' = n' /\ lost' = lost \ WNewKeys(n)
  /\ ev.rem = 0
  /\ {ev.set[x] : x \in 1 .. Len(ev.set)} = {<<k, k, known'[k]>> : k \in WNewKeys(n)}
TReadW == Ev("readw") /\ ev.rem = 0 /\ ev.set = <<>> /\ Same
TProve ==
  /\ Ev("prove") /\ Same
  /\ IF ev.f THEN ev.r = "storage"
     ELSE IF ~ULt(ev.i, n) THEN ev.r = "oor" /\ ev.e = ev.i
     ELSE LET deps == WProofDeps(n, ev.i)
              ok   == /\ ev.r = "ok" /\ ev.root = WRoot(known, n) /\ ev.set = WProof(known, n, ev.i)
          IN IF deps \subseteq There THEN ok
             ELSE \/ ev.r = "load" /\ ev.e \in deps \ There
                  \/ deps \subseteq DOMAIN known /\ ok

TLose == Ev("lose") /\ lost' = lost \cup {ev.keys[x] : x \in 1 .. Len(ev.keys)}
         /\ UNCHANGED <<known, n, top, saved>>
TMark == Ev("mark") /\ saved' = <<known, n, top, lost>> /\ UNCHANGED <<known, n, top, lost>>
TBack == Ev("back") /\ known' = saved[1] /\ n' = saved[2] /\ top' = saved[3] /\ lost' = saved[4] /\ UNCHANGED saved

\* verify() of the reference verifier, for the current count and a first element
\* that is the digest of a leaf with data ev.d.  Leaves that are not known have
\* digests of their own.
TVerify ==
  /\ Ev("verify") /\ Same
  /\ Assert(ev.set[1] = ShaLeaf(ev.d), "harness error")
  /\ LET own == /\ ULt(ev.i, n)
                /\ WIndex(0, ev.i) \in DOMAIN known
                /\ known[WIndex(0, ev.i)] = ev.set[1]
                /\ ev.root = WRoot(known, n)
                /\ ev.set = WProof(known, n, ev.i)
     IN  ev.r = IF own THEN "true" ELSE "false"

\* Many steps at once: pushes, some with a failing write (f) or during which the
\* process stopped (c, then loaded again at the old count: lr), each followed by the
\* root, some proofs, and what it wrote.  With ev.keep all nodes stay known, else
\* those of the peaks only.
GProofOK(k, m, p) ==
  IF ~ULt(p.i, m) THEN p.r = "oor" /\ p.e = p.i
  ELSE p.r = "ok" /\ p.root = WRoot(k, m) /\ p.set = WProof(k, m, p.i)
GStep(k, m, s) ==      \* <<known, n>> after the step, or <<>>
  LET k1 == IF s.f THEN k ELSE WPush(k, m, ShaLeaf(s.d))
      m1 == IF s.f THEN m ELSE UAdd(m, UOne)
  IN IF /\ IF s.c THEN s.f /\ s.lr = "ok" ELSE s.r = IF s.f THEN "storage" ELSE "ok"
        /\ s.v = "" \/ s.v = WRoot(k1, m1)
        /\ \A x \in 1 .. Len(s.ps) : GProofOK(k1, m1, s.ps[x])
        /\ s.hw => /\ s.rem = 0
                   /\ Len(s.w) = Cardinality(WNewKeys(m))
                   /\ {s.w[x] : x \in 1 .. Len(s.w)} = {<<q, q, k1[q]>> : q \in WNewKeys(m)}
     THEN <<k1, m1>> ELSE <<>>
RECURSIVE GSteps(_, _, _)
GSteps(k, m, x) ==
  IF x > Len(ev.steps) THEN <<k, m>>
  ELSE LET a == GStep(k, m, ev.steps[x])
       IN IF a = <<>> THEN <<>>
          ELSE GSteps(IF ev.keep THEN a[1] ELSE [q \in WPeakKeys(a[2]) |-> a[1][q]], a[2], x + 1)
TGrow ==
  /\ Ev("grow") /\ UNCHANGED <<saved, lost>>
  /\ Assert(lost = {}, "harness error: growing a damaged store")
  /\ LET a == GSteps(known, n, 1) IN a # <<>> /\ known' = a[1] /\ n' = a[2] /\ top' = a[2]
\* Loads at many counts, each with the root of the tree loaded.
TLoads ==
  /\ Ev("loads") /\ Same
  /\ \A x \in 1 .. Len(ev.rs) :
       LET e == ev.rs[x]
       IN IF WPeakKeys(e[1]) \subseteq There THEN e[2] = "ok" /\ e[3] = WRoot(known, e[1])
          ELSE e[2] = "load"

Next == \/ TSeed \/ TGrow \/ TLoads \/ TLoad \/ TRoot \/ TPush \/ TCrash \/ TPushW \/ TReadW \/ TProve
        \/ TLose \/ TMark \/ TBack \/ TVerify
Spec == Init /\ [][Next]_vars
=============================================================================
