----------------------------- MODULE MC_Readers -----------------------------
(***************************************************************************)
(* Two binary trees on one store, growing along one line of leaves, whose  *)
(* storage calls interleave in every way: two instances of the step model  *)
(* sharing `store`.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SymHash

CONSTANTS MaxLeaves

VARIABLES store,
          leaves1, peaks1, count1, work1, pc1,
          leaves2, peaks2, count2, work2, pc2,
          ahead                        \* the number of leaves acknowledged
v1 == <<leaves1, peaks1, count1, work1, pc1>>
v2 == <<leaves2, peaks2, count2, work2, pc2>>
vars == <<store, v1, v2, ahead>>

Line == 1 .. MaxLeaves                 \* the data of leaf n is n
Digests(n) == [x \in 1 .. n |-> SymLeaf(x)]

A == INSTANCE BinaryMerkle WITH leaves <- leaves1, peaks <- peaks1, count <- count1, work <- work1, pc <- pc1,
       Data <- Line, Forks <- TRUE, Unrecoverable <- FALSE, EmptyH <- SymEmpty, LeafH <- SymLeaf, NodeH <- SymNode
B == INSTANCE BinaryMerkle WITH leaves <- leaves2, peaks <- peaks2, count <- count2, work <- work2, pc <- pc2,
       Data <- Line, Forks <- TRUE, Unrecoverable <- FALSE, EmptyH <- SymEmpty, LeafH <- SymLeaf, NodeH <- SymNode

Init == A!Init /\ B!Init /\ ahead = 0

Max(a, b) == IF a > b THEN a ELSE b
LoadA(k) == /\ pc1 \in {"idle", "down"}
            /\ peaks1' = A!LoadPeaks(k) /\ count1' = k /\ pc1' = "idle" /\ work1' = <<>> /\ leaves1' = Digests(k)
            /\ UNCHANGED store
LoadB(k) == /\ pc2 \in {"idle", "down"}
            /\ peaks2' = B!LoadPeaks(k) /\ count2' = k /\ pc2' = "idle" /\ work2' = <<>> /\ leaves2' = Digests(k)
            /\ UNCHANGED store

Next == /\ \/ /\ A!PushLeaf(count1 + 1) \/ A!JoinStep \/ A!FailJoin \/ A!Crash \/ \E k \in 0 .. ahead : LoadA(k)
              /\ UNCHANGED v2
           \/ /\ B!PushLeaf(count2 + 1) \/ B!JoinStep \/ B!FailJoin \/ B!Crash \/ \E k \in 0 .. ahead : LoadB(k)
              /\ UNCHANGED v1
        /\ ahead' = Max(ahead, Max(Len(leaves1'), Len(leaves2')))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
both == (1 :> count1) @@ (2 :> count2)
Readers == INSTANCE BinaryReaders WITH counts <- both, line <- Digests(ahead),
       EmptyH <- SymEmpty, LeafH <- SymLeaf, NodeH <- SymNode
Refines == [][\E h \in {1, 2} : \/ \E d \in Line : Readers!RPush(h, d)
                                \/ \E k \in 0 .. MaxLeaves : Readers!RLoad(h, k)]_<<both, ahead>>

InLine   == (pc1 # "down" => leaves1 = Digests(count1)) /\ (pc2 # "down" => leaves2 = Digests(count2))
RootsOK  == A!RootOK /\ B!RootOK
PeaksOK  == A!PeaksOK /\ B!PeaksOK
ProofsOK == A!ProofsOK /\ B!ProofsOK
\* Every acknowledged count can be loaded by anyone, at any moment.
Loadable == \A k \in 0 .. ahead :
              /\ \A x \in 1 .. Len(A!PeakPositions(k)) : A!PeakPositions(k)[x] \in DOMAIN store
              /\ A!RootOf(A!LoadPeaks(k)) = A!MTH(Digests(k))
StoreExact == \A x \in A!Persisted(Digests(ahead)) : x[1] \in DOMAIN store /\ store[x[1]] = x[2]
WriteOnce  == [][\A k \in DOMAIN store : store'[k] = store[k]]_store
=============================================================================
