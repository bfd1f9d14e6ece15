----------------------------- MODULE MC_SumPair -----------------------------
(***************************************************************************)
(* Two sum trees on one store, whose writes interleave in every way.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SymHash

CONSTANTS Fees, FData, MaxItems

VARIABLES store, items1, peaks1, work1, cur1, pc1, items2, peaks2, work2, cur2, pc2
v1 == <<items1, peaks1, work1, cur1, pc1>>
v2 == <<items2, peaks2, work2, cur2, pc2>>
Plus(a, b) == a + b

A == INSTANCE SumMerkle WITH items <- items1, peaks <- peaks1, work <- work1, cur <- cur1, pc <- pc1, Forgets <- FALSE,
       FZero <- 0, FAdd <- Plus, FEmptyH <- SymEmpty, FLeafH <- SymFLeaf, FNodeH <- SymFNode
B == INSTANCE SumMerkle WITH items <- items2, peaks <- peaks2, work <- work2, cur <- cur2, pc <- pc2, Forgets <- FALSE,
       FZero <- 0, FAdd <- Plus, FEmptyH <- SymEmpty, FLeafH <- SymFLeaf, FNodeH <- SymFNode

Init == A!Init /\ B!Init
Next == (A!Next /\ UNCHANGED v2) \/ (B!Next /\ UNCHANGED v1)
Spec == Init /\ [][Next]_<<store, v1, v2>>
RootsOK   == A!RootOK /\ B!RootOK
SelfCert  == A!SelfCert
HoldsRoot == A!HoldsRoot /\ B!HoldsRoot
\* What is in the store stays there, unchanged.
Keeps == [][\A d \in DOMAIN store : d \in DOMAIN store' /\ store'[d] = store[d]]_store
=============================================================================
