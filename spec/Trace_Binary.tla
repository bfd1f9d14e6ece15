---------------------------- MODULE Trace_Binary ----------------------------
(***************************************************************************)
(* Recorded executions of binary Merkle trees, judged by the contract      *)
(* BinaryLog with SHA-256.                                                 *)
(***************************************************************************)
EXTENDS TraceBase, BinaryLog, ShaHash, FiniteSets

VARIABLES base,     \* what the store was last acknowledged to hold, >= leaves
          lost,     \* in-order indices removed from the store behind the tree's back
          saved     \* a remembered <<leaves, base, lost>>
tvars == <<l, leaves, base, lost, saved>>

Init == TraceStart /\ LogInit /\ base = <<>> /\ lost = {} /\ saved = <<>>

NewKeys(n) == { InOrder(h, (n \div 2^h) - 1) : h \in { x \in 0 .. Log2Floor(n) : n % 2^x = 0 } }

TNew == /\ Ev("new") /\ leaves' = <<>> /\ base' = <<>> /\ lost' = {} /\ saved' = <<>>

TPush ==
  /\ Ev("push") /\ UNCHANGED saved
  /\ IF ev.f
     THEN ev.r = "storage" /\ PushFails /\ base' = leaves /\ UNCHANGED lost
     ELSE ev.r = "ok" /\ Push(ev.d) /\ base' = leaves' /\ lost' = lost \ NewKeys(Len(leaves'))

\* Many pushes, all of which succeeded.
TPushN ==
  /\ Ev("pushn") /\ ev.r = "ok" /\ UNCHANGED <<saved, lost>>
  /\ leaves' = leaves \o [x \in 1 .. Len(ev.ds) |-> LeafH(ev.ds[x])]
  /\ base' = leaves'

\* The process ended inside a push.
TCrash == Ev("crash") /\ PushFails /\ base' = leaves /\ UNCHANGED <<lost, saved>>

TRoot == /\ Ev("root") /\ ev.r = "ok" /\ ev.v = RootOut
         /\ Read /\ UNCHANGED <<base, lost, saved>>

\* ev.i is the index, clipped to 31 bits; ev.ih the index in full.
TProve ==
  /\ Ev("prove") /\ Read /\ UNCHANGED <<base, lost, saved>>
  /\ IF ev.f THEN ev.r = "storage"
     ELSE IF ev.i >= Len(leaves) THEN ev.r = "oor" /\ ev.e = ev.ih
     ELSE LET ok == /\ ev.r = "ok"
                    /\ ev.root = RootOut
                    /\ ev.set = Proof(ev.i, leaves)
                    /\ Accepts(ev.root, ev.set, ev.i, Len(leaves))
          IN IF lost = {} \/ Keys(ProofDeps(ev.i, Len(leaves))) \cap lost = {}
             THEN ok
             ELSE (ev.r = "load" /\ ev.en \in Keys(ProofDeps(ev.i, Len(leaves))) \cap lost) \/ ok

PeakKeys(k) == { InOrder(Peaks(k)[x][1], Peaks(k)[x][2]) : x \in 1 .. Len(Peaks(k)) }

TLoad ==
  /\ Ev("load") /\ UNCHANGED <<base, lost, saved>>
  /\ IF ev.f THEN ev.r = "storage" /\ Read
     ELSE IF ev.k > Len(base) \/ (lost # {} /\ PeakKeys(ev.k) \cap lost # {})
     THEN /\ ev.r = "load" /\ Read
          \* the error names a node that is missing
          /\ ev.en \in lost \/ ev.en \notin Keys(CompleteNodes(Len(base)))
     ELSE ev.r = "ok" /\ leaves' = SubSeq(base, 1, ev.k)

TLose == /\ Ev("lose") /\ lost' = lost \cup {ev.keys[x] : x \in 1 .. Len(ev.keys)}
         /\ Read /\ UNCHANGED <<base, saved>>
\* What was lost is back: nothing is excused by it any more.
TFound == Ev("found") /\ lost' = {} /\ Read /\ UNCHANGED <<base, saved>>

\* The same store and tree as remembered are at hand again (the driver works
\* on copies).
TMark == Ev("mark") /\ saved' = <<leaves, base, lost>> /\ Read /\ UNCHANGED <<base, lost>>
TBack == Ev("back") /\ leaves' = saved[1] /\ base' = saved[2] /\ lost' = saved[3] /\ UNCHANGED saved

\* A push, with everything it did to the store.
TPushW ==
  /\ Ev("pushw") /\ ev.r = "ok" /\ Push(ev.d) /\ base' = leaves' /\ UNCHANGED <<lost, saved>>
  /\ LET n   == Len(leaves')
         new == { <<h, (n \div 2^h) - 1>> : h \in { x \in 0 .. Log2Floor(n) : n % 2^x = 0 } }
     IN  /\ {ev.add[x] : x \in 1 .. Len(ev.add)}
              = { <<InOrder(y[1], y[2]), InOrder(y[1], y[2]), NodeDigest(leaves', y[1], y[2])>> : y \in new }
         /\ Len(ev.add) = Cardinality(new)
         /\ ev.chg = 0 /\ ev.rem = 0
         /\ \A x \in 1 .. Len(ev.keys) : ev.keys[x] \in Keys(new)

\* root, prove or load: nothing was written.
TReadW == /\ Ev("readw") /\ ev.add = <<>> /\ ev.chg = 0 /\ ev.rem = 0 /\ ev.keys = <<>>
          /\ Read /\ UNCHANGED <<base, lost, saved>>

\* The whole store.
TStore == /\ Ev("store") /\ Read /\ UNCHANGED <<base, lost, saved>>
          /\ LET p == Persisted(leaves)
             IN  /\ {ev.es[x] : x \in 1 .. Len(ev.es)} = {<<y[1], y[1], y[2]>> : y \in p}
                 /\ Len(ev.es) = Cardinality(p)

\* A record that is only compared between builds (Trace_Config).
TNote == Ev("note") /\ Read /\ UNCHANGED <<base, lost, saved>>

\* leaves_count() of the reference tree
TCount == Ev("count") /\ ev.r = "ok" /\ ev.n = Len(leaves) /\ Read /\ UNCHANGED <<base, lost, saved>>

\* prove() of the reference tree, whose index (clipped) was chosen beforehand.
TRefProve ==
  /\ Ev("refprove") /\ ev.r = "ok" /\ ev.root = RootOut
  /\ ev.set = (IF ev.i < Len(leaves) THEN Proof(ev.i, leaves) ELSE <<>>)
  /\ Read /\ UNCHANGED <<base, lost, saved>>

\* verify() of the reference verifier on (root, set, i, n), where n the number
\* of the current leaves, and the root theirs or another.  ev.d is the data of which the first element
\* is the leaf digest, if ev.leaf holds.
TVerify ==
  /\ Ev("verify") /\ Read /\ UNCHANGED <<base, lost, saved>>
  /\ LET n == Len(leaves)
         a == ev.set # <<>> /\ Accepts(ev.root, ev.set, ev.i, n)
     IN  /\ ev.leaf => (ev.set # <<>> /\ ev.set[1] = LeafH(ev.d))
         /\ IF ev.leaf THEN ev.r = (IF a THEN "true" ELSE "false")
            ELSE IF ev.set = <<>> \/ ev.i >= n THEN ev.r = "false"
            ELSE ev.r \in {"true", "false"} /\ (a => ev.r = "true")

\* The fixture runner was given a proof fixture for the current leaves (or with
\* another count, when the index is out of range for it) and a claimed outcome.
TFixture ==
  /\ Ev("fixture") /\ Read /\ UNCHANGED <<base, lost, saved>>
  /\ Assert(ev.set # <<>> => ev.set[1] = LeafH(ev.d), "harness error")
  /\ Assert(ev.n = Len(leaves) \/ ev.i >= ev.n, "harness error")
  /\ LET a == ev.n = Len(leaves) /\ ev.set # <<>> /\ Accepts(ev.root, ev.set, ev.i, ev.n)
     IN  IF ev.bad THEN ev.r = "decoding" \/ <<"proof-" \o ev.flaw, ev.r>> \in Known
                   ELSE ev.r = IF a = ev.claim THEN "ok" ELSE "failed"

\* A value that is not valid in its encoding was decoded.
TJunk == Ev("junk") /\ ev.r = "decoding" /\ Read /\ UNCHANGED <<base, lost, saved>>

\* A fixture value was decoded: the bytes ev.d, in one of the encodings.
TCoded == Ev("coded") /\ ev.r = "ok" /\ ev.v = ev.d /\ Read /\ UNCHANGED <<base, lost, saved>>

Next == \/ TNew \/ TPush \/ TPushN \/ TCrash \/ TRoot \/ TProve \/ TLoad \/ TLose \/ TFound
        \/ TMark \/ TBack \/ TPushW \/ TReadW \/ TStore \/ TNote \/ TCount \/ TRefProve \/ TVerify
        \/ TFixture \/ TCoded \/ TJunk
Spec == Init /\ [][Next]_tvars
=============================================================================
