---------------------------- MODULE BinaryMerkle ----------------------------
(***************************************************************************)
(* The binary Merkle tree step by step, as src/binary/merkle_tree.rs does  *)
(* it: a store of nodes keyed by in-order index, a list of peaks ("head",  *)
(* newest first), a leaf count; a push is one leaf write followed by one   *)
(* write per join, any of which may fail, or be the last thing the process *)
(* ever does.  Position arithmetic is the code's: in-order indices, path   *)
(* iteration from the root position, side positions.                       *)
(***************************************************************************)
EXTENDS BinaryLog, PositionCode, FiniteSets, TLC

CONSTANTS Data,          \* leaf data
          MaxLeaves,     \* bound on the count
          Forks,         \* whether load(k) with k < count is explored
          Unrecoverable  \* TRUE: a failed join forgets the peaks (the defect
                         \* repaired in the code; kept to show it is caught)

VARIABLES store,         \* in-order index -> digest
          peaks,         \* sequence of [pos, h, dig], newest (rightmost) first
          count,         \* number of leaves
          work,          \* peaks of the push in progress
          pc             \* "idle", "joining" (a push is between two writes), "down"

vars == <<leaves, store, peaks, count, work, pc>>

-----------------------------------------------------------------------------
JoinNode(l, r) == [pos |-> Parent(l.pos), h |-> Height(Parent(l.pos)),
                   dig |-> NodeH(l.dig, r.dig)]

\* Joining all peaks, rightmost first; `acc` collects the scratch nodes.
RECURSIVE Bag(_, _)
Bag(ps, acc) ==
  IF Len(ps) <= 1 THEN <<ps, acc>>
  ELSE LET j == JoinNode(ps[2], ps[1])
       IN  Bag(<<j>> \o SubSeq(ps, 3, Len(ps)), (j.pos :> j.dig) @@ acc)

RootOf(ps) == IF ps = <<>> THEN EmptyH ELSE Bag(ps, <<>>)[1][1].dig

\* prove(i), as the code computes it from peaks, scratch nodes and the store.
CodeProof(i) ==
  LET pp      == PosPath(RootPos(count), i, count)
      sides   == [x \in 1 .. Len(pp) - 1 |-> pp[Len(pp) + 1 - x][2]]
      scratch == Bag(peaks, <<>>)[2]
      get(k)  == IF k \in DOMAIN scratch THEN scratch[k] ELSE store[k]
  IN  <<store[2 * i]>> \o [x \in 1 .. Len(sides) |-> get(sides[x])]

CanJoin(ps) == Len(ps) >= 2 /\ ps[1].h = ps[2].h

-----------------------------------------------------------------------------
Init == /\ LogInit
        /\ store = <<>> /\ peaks = <<>> /\ count = 0 /\ work = <<>> /\ pc = "idle"

\* The peaks after `ps` has been joined as far as possible.
Commit(ps, d) ==
  /\ peaks' = ps /\ count' = count + 1 /\ work' = <<>> /\ pc' = "idle"
  /\ leaves' = Append(leaves, d)

\* One write of the leaf; if nothing is to be joined the push returns.
PushLeaf(d) ==
  /\ pc = "idle" /\ count < MaxLeaves
  /\ LET n == [pos |-> 2 * count, h |-> 0, dig |-> LeafH(d)]
         w == <<n>> \o peaks
     IN  /\ store' = (n.pos :> n.dig) @@ store
         /\ IF CanJoin(w)
            THEN work' = w /\ pc' = "joining" /\ UNCHANGED <<leaves, peaks, count>>
            ELSE Commit(w, n.dig)

\* One join: one write; the push returns after the last one.
JoinStep ==
  /\ pc = "joining"
  /\ LET j == JoinNode(work[2], work[1])
         w == <<j>> \o SubSeq(work, 3, Len(work))
     IN  /\ store' = (j.pos :> j.dig) @@ store
         /\ IF CanJoin(w)
            THEN work' = w /\ UNCHANGED <<leaves, peaks, count, pc>>
            ELSE Commit(w, store[2 * count])

\* The write that was due fails: the push returns the error.
FailLeaf == pc = "idle" /\ count < MaxLeaves /\ UNCHANGED vars
FailJoin ==
  /\ pc = "joining"
  /\ pc' = "idle" /\ work' = <<>>
  /\ peaks' = IF Unrecoverable THEN <<>> ELSE peaks
  /\ UNCHANGED <<leaves, store, count>>

\* The process stops between two writes; only the store survives.
Crash == pc # "down" /\ pc' = "down" /\ work' = <<>> /\ peaks' = <<>>
         /\ UNCHANGED <<leaves, store, count>>

LoadPeaks(k) ==
  LET pp == PeakPositions(k)
  IN  [x \in 1 .. Len(pp) |-> LET q == pp[Len(pp) + 1 - x]
                              IN [pos |-> q, h |-> Height(q), dig |-> store[q]]]

\* load(store, k) for an acknowledged count k.
LoadK(k) ==
  /\ pc \in {"idle", "down"} /\ k \in 0 .. count /\ (Forks \/ k = count)
  /\ \A x \in 1 .. Len(PeakPositions(k)) : PeakPositions(k)[x] \in DOMAIN store
  /\ peaks' = LoadPeaks(k) /\ count' = k /\ pc' = "idle" /\ work' = <<>>
  /\ leaves' = SubSeq(leaves, 1, k)
  /\ UNCHANGED store

Next == \/ \E d \in Data : PushLeaf(d)
        \/ JoinStep \/ FailLeaf \/ FailJoin \/ Crash
        \/ \E k \in 0 .. MaxLeaves : LoadK(k)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Abstract == INSTANCE BinaryLog
\* Every step is a step of the contract, or invisible in it.
Refines == [][\/ \E d \in Data : Abstract!Push(d)
              \/ Abstract!PushFails
              \/ \E k \in 0 .. MaxLeaves : Abstract!Load(k)]_vars

CountOK    == count = Len(leaves)
RootOK     == pc # "down" => RootOf(peaks) = RootOut
PeaksOK    == pc # "down" =>
                [x \in 1 .. Len(peaks) |-> peaks[Len(peaks) + 1 - x].pos]
                  = [x \in 1 .. Len(Peaks(count)) |-> InOrder(Peaks(count)[x][1], Peaks(count)[x][2])]
ProofsOK   == pc # "down" => \A i \in 0 .. count - 1 :
                /\ CodeProof(i) = Proof(i, leaves)
                /\ Accepts(RootOf(peaks), CodeProof(i), i, count)
\* The store always holds the acknowledged leaves' subtrees ...
StoreHolds == \A x \in Persisted(leaves) : x[1] \in DOMAIN store /\ store[x[1]] = x[2]
\* ... and without forks or failed pushes, nothing else (checked when idle).
StoreExact == (pc = "idle" /\ ~Forks) =>
                DOMAIN store \subseteq
                  ({x[1] : x \in Persisted(leaves)}
                    \cup Keys(CompleteNodes(count + 1)))
\* load() finds what it needs, at every acknowledged count, in every state.
Loadable   == \A k \in 0 .. count :
                LET pp == PeakPositions(k)
                IN \A x \in 1 .. Len(pp) : pp[x] \in DOMAIN store
LoadedRoot == \A k \in 0 .. count : RootOf(LoadPeaks(k)) = MTH(SubSeq(leaves, 1, k))
\* There are few peaks, also during a push, which joins some of them: a push
\* writes one node, and one for each join.
FewPeaks   == Len(peaks) <= Log2Floor(count + 1) + 1 /\ Len(work) <= Log2Floor(count + 1) + 2
\* No reported root can be reached with a different leaf at any index: two
\* leaf lists with one root are one list (perfect hash).
NothingLost == [][\A k \in DOMAIN store : k \in DOMAIN store']_vars
\* A node, once written, is never overwritten by another value, as long as no
\* earlier count has been loaded and pushes that failed are retried.
WriteOnce  == [][\A k \in DOMAIN store :
                   k \in Keys(CompleteNodes(count)) => store'[k] = store[k]]_vars
=============================================================================
